int main(int argc, int argv) { int x; int *y; int z; z = 2; y = &z; x = *y; return x; }
