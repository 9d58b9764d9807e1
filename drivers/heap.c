/* Interprets a history of malloc, calloc and free given as argv[1]. */
char *ptr[16];
int len[16];
int seed[16];
char *old[16];
char *sc;
int pos;

int num()
{
    int v = 0;
    int neg = 0;
    if (sc[pos] == '-') {
        neg = 1;
        pos++;
    }
    while (sc[pos] >= '0' && sc[pos] <= '9') {
        v = v * 10 + sc[pos] - '0';
        pos++;
    }
    pos++;
    if (neg)
        v = 0 - v;
    return v;
}

int want(int s, int i)
{
    int v = seed[s] * 37 + i * 13 + (i >> 8);
    return v & 255;
}

/* visits the first and last 80 bytes and every 37th between */
int next_byte(int i, int n)
{
    if (i < 80 || i >= n - 80)
        return i + 1;
    if (i + 37 > n - 80)
        return n - 80;
    return i + 37;
}

void fill(int s)
{
    char *p = ptr[s];
    int n = len[s];
    int i = 0;
    while (i < n) {
        p[i] = want(s, i);
        i = next_byte(i, n);
    }
}

int bad(int s)
{
    char *p = ptr[s];
    int n = len[s];
    int i = 0;
    int b = 0;
    while (i < n) {
        if (p[i] != want(s, i))
            b++;
        i = next_byte(i, n);
    }
    return b;
}

int main(int argc, char *argv[])
{
    int i;
    int s;
    int n;
    int k;
    int nz;
    int stamp = 1;
    char *p;
    for (i = 0; i < 16; i++) {
        ptr[i] = 0;
        old[i] = 0;
        len[i] = 0;
    }
    sc = argv[1];
    pos = 0;
    while (sc[pos]) {
        int op = sc[pos];
        pos++;
        if (op == 'm' || op == 'c') {
            s = num();
            k = 1;
            if (op == 'c')
                k = num();
            n = num();
            if (op == 'c')
                p = calloc(k, n);
            else
                p = malloc(n);
            n = k * n;
            nz = 0;
            if (op == 'c' && p)
                for (i = 0; i < n; i++)
                    if (p[i] != 0)
                        nz++;
            printf("%d %d\n", p, nz);
            if (p) {
                ptr[s] = p;
                len[s] = n;
                seed[s] = stamp;
                stamp++;
                fill(s);
            }
        }
        if (op == 'f') {
            s = num();
            p = ptr[s];
            old[s] = p;
            ptr[s] = 0;
            free(p);
            printf("0\n");
        }
        if (op == 'z') {
            num();
            free(0);
            printf("0\n");
        }
        if (op == 'd') {
            s = num();
            p = old[s];
            printf("%d\n", p);
            free(p);
        }
        if (op == 'i') {
            num();
            for (i = 0; i < 16; i++)
                if (ptr[i]) {
                    n = bad(i);
                    printf("%d %d ", i, n);
                }
            printf("\n");
        }
    }
    printf("end\n");
    return 0;
}
