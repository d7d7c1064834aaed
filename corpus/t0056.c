int main(int argc, int argv) { int var; var = 010 << 3; var += 1; return var; }
