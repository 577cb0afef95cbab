#![allow(dead_code, unused)]
// Texts with particular contents: nothing is trimmed, cut at a terminator, normalised or replaced.
include!("ob.rs");
use varlen::array::ArrayLen;
use varlen::Str;

macro_rules! texts {
    ($($f:ident $t:expr,)*) => { $(
        pub fn $f() {
            let src: &'static str = $t;
            let b: VBox<Str> = VBox::new(Str::copy(src));
            same(&**b, src);
            let c: VBox<Str<u8>> = VBox::new(Str::<u8>::try_copy(src).unwrap());
            same(&**c, src);
            let d: VBox<Str> = VBox::new(b.vcopy());
            same(&**d, src);
            let e: VBox<Str<u16>> = VBox::new(Str::<u16>::try_copy(src).unwrap());
            same(&**e, src);
        }
    )* };
}
pub fn same(got: &str, src: &str) {
    check("c17 the text is as long as its source", got.len() == src.len());
    let mut i = 0;
    while i < src.len() {
        check("c17 every byte is the source's", got.as_bytes()[i] == src.as_bytes()[i]);
        i += 1;
    }
}
texts! {
    h_c17_text_empty "",
    h_c17_text_nul "\0",
    h_c17_text_nuls "ab\0\0",
    h_c17_text_nul_inside "a\0b",
    h_c17_text_nul_first "\0ab",
    h_c17_text_blank " ",
    h_c17_text_blanks "  a b  ",
    h_c17_text_newline "a\n",
    h_c17_text_crlf "a\r\nb\r\n",
    h_c17_text_tab "\ta",
    h_c17_text_bom "\u{feff}x",
    h_c17_text_accent "e\u{301}",
    h_c17_text_latin "é",
    h_c17_text_cjk "漢字",
    h_c17_text_emoji "👩‍👧",
    h_c17_text_last "\u{10ffff}",
    h_c17_text_del "\u{7f}\u{80}",
    h_c17_text_replacement "\u{fffd}",
    h_c17_text_case "AbCß",
    h_c17_text_quote "'\"\\",
}
