// This is a test C++-style comments
int main() { return 0; }
