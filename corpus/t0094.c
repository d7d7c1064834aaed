int main(int argc, int argv) { int x; int *y; x = 3; y = &x; return y[0]; }
