int main(int argc, int argv) { int a; a = 10; a -= 5; return a; }
