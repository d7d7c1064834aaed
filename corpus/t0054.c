int main(int argc, int argv) { int var; var = 10 * 012; return var; }
