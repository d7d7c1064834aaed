int main(int argc, int argv) { int a; a = 1; a ^= 0; return a; }
