int main()
{
    printf("%d %d", 7 / -2, 7 % -2);
    return 0;
}
