int main()
{
    return 0;
    int a = 5;
}
