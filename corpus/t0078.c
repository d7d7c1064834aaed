int main(int argc, int argv) { int x; for(x = 10; x > 0; x--); return x; }
