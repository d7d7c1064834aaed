int main(int argc, int argv) { int a; a = 4; a >>= 1; return a; }
