int main(int argc, int argv) { if (0) return 5; else if (0) return 20; else return 10; }
