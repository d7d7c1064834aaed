int main() {
    printf("%100d", 123);
    return 0;
}
