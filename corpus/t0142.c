int main() {
    printf("%11d", -214748364);
    return 0;
}
