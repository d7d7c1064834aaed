int main(int argc, int argv) { { int a; a = 5; { a = 5 + a; } return a; } }
