int main(int argc, int argv) { int var; var = 012; return var; }
