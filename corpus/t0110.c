int main(int argc, int argv) { int a; a = 2; a <<= 1; return a; }
