int main(int argc, int argv) { int var; var = 0100 / 2; return var; }
