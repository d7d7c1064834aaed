int main(int argc, int argv) { int x[2]; int y; x[1] = 2; y = *(x + 1); return y; }
