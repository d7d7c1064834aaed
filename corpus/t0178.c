int main()
{
    printf("%d", 477 / (37 + 1 / -3));
    return 0;
}
