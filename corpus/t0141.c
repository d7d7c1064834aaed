int main() {
    printf("%d", -214748364);
    return 0;
}
