int main(int argc, int argv) { if (1) return 010; else return 11; }
