int main(int argc, int argv) { int x; x=0; do {x++; continue; abort();} while (x < 2); return x; }
