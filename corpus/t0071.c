int main(int argc, int argv) { int x; x=0; do {x = x + 1; break;} while (1); return x; }
