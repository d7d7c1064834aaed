int main(int argc, int argv) { int var; var = 10; return var; }
