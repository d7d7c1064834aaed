int main() { return 0; }
/* This is a test C-style comments */
