int main(int argc, int argv) { int i; int acc; acc = 0; for (i = 0; i < 10; ++i) { acc = acc + i; } return acc; }
