int main(int argc, int argv) { int acc; acc = 15; do { acc = acc * -2; } while (acc < 0); return acc; }
