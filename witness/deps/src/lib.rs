// Builds the library and its dependencies once; witnesses are compiled against the result.
