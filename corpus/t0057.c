int main(int argc, int argv) { if (1) return 5; else return 20; }
