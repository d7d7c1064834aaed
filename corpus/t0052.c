int main(int argc, int argv) { int v; v = 30; v = 50; return v; }
