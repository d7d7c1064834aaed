int main(int argc, int argv) { int b; int *a; b = 10; a = &b; a[0] = 5; return b; }
