int main()
{
    printf("%d", 6 / -2 / -3);
    return 0;
}
