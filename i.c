int main() {
    char a[8]; int i, r; int g[3];
    for (i = 0; i < 8; i++) a[i] = 10 + i;
    a[2] = 255; i = 2;
    r = ++a[i];
    printf("%d %d %d\n", r, a[2], a[3]);
    a[2] = 0;
    r = --a[i];
    printf("%d %d %d\n", r, a[2], a[3]);
    a[2] = 255;
    r = a[i]++ + 3;
    printf("%d %d %d\n", r, a[2], a[3]);
    char *p = a;
    r = *p++;
    printf("%d %d\n", r, *p);
    r = p[0]--;
    printf("%d %d\n", r, *p);
    return 0;
}
