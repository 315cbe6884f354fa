/* declarations, declarators, initializers */
typedef unsigned long size_type;
typedef struct node Node;
typedef int (*binop)(int, int);
struct node { int key; struct node *next; union { int i; double d; char s[8]; } u; unsigned flag : 3, rest : 5; int : 0; short tail; };
enum color { RED, GREEN = 5, BLUE, LAST = BLUE * 2 + 1 };
static const int table[] = { 1, 2, 3, RED, LAST };
static char *names[] = { "red", "gre" "en", "b\x6cue", "\101\n\t\\\"", 0 };
int matrix[3][4] = { { 1, 2 }, { 3 }, { 0, 0, 0, 9 } };
Node head = { 1, &head, { 3 }, 1, 2, 3 };
extern int ext_fn(int a, char *b, ...);
static int add(int a, int b) { return a + b; }
static int sub(int a, int b) { return a - b; }
binop ops[2] = { add, &sub };
int (*(*fpp)(int (*)(void), int))[3];
volatile const unsigned char *volatile vp;
float f = 1.5f; double d = -2.5e3; long double ld = 1e10L;
unsigned long long big = 0xffffffffffffffffull;
long size = sizeof(struct node) + sizeof table / sizeof table[0];
int tentative;
int tentative;
struct packed_s { char a; int b; short c; } __attribute__((packed));
