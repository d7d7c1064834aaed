int main(int argc, int argv) { int a; a = 100; a /= 3; return a; }
