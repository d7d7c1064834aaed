int main(int argc, int argv) { int acc; int p; acc = 0; p = 10; while (p) { acc = acc + p; p = p - 1; } return acc; }
