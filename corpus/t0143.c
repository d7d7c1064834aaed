int main() {
    printf("%16d", -214748364);
    return 0;
}
