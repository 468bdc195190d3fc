/* regular expressions: the matcher of arg_rex.c on any compiled expression and any text */
//@ extract arg_rex.c TRexChar TRexNodeType TRexNode TRexMatch TRexBool MAX_CHAR OP_* TRex
//@ contract trex_matchnode c_matchnode h_matchnode
//@ contract trex_matchclass c_matchclass h_matchclass
//@ contract trex_matchcclass c_matchcclass h_matchcclass
//@ harness h_matchnode prop=C12 use=trex_matchnode,trex_matchclass,trex_matchcclass cut=trex_matchnode nonative=1
//@ harness h_matchclass prop=C12 use=trex_matchcclass cut=trex_matchclass nonative=1
//@ harness h_matchcclass prop=C12
//@ harness h_match prop=C12 use=trex_matchnode nonative=1
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
typedef struct TRex TRex;
#include VP_EXTRACT

const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar* str, TRexNode* next);
TRexBool trex_matchclass(TRex* exp, TRexNode* node, TRexChar c);
TRexBool trex_matchcclass(int cclass, TRexChar c);
TRexBool trex_match(TRex* exp, const TRexChar* text);

static int g_n, g_sub, g_c, g_i0;
static const char* g_text;
static size_t g_len;
static TRex* g_exp;

/* does the character c belong to the character class k */
static int cclass(int k, int c) {
    int up = k < 'a' && k != 0;
    switch (tolower(k)) {
    case 'a': return (isalpha(c) != 0) ^ up;
    case 'w': return (isalnum(c) || c == '_') ^ up;
    case 's': return (isspace(c) != 0) ^ up;
    case 'd': return (isdigit(c) != 0) ^ up;
    case 'x': return (isxdigit(c) != 0) ^ up;
    case 'c': return (iscntrl(c) != 0) ^ up;
    case 'p': return (ispunct(c) != 0) ^ up;
    case 'l': return k == 'l' ? islower(c) != 0 : 0;
    case 'u': return k == 'u' ? isupper(c) != 0 : 0;
    }
    return 0;
}
static int pure_cclass(int k, int c) { return cclass(k, c); }
static int same(int c, int t, int icase) { return icase ? (c == tolower(t)) | (c == toupper(t)) : c == t; }
static int range(int c, int l, int r, int icase) {
    return icase ? ((c >= toupper(l)) & (c <= toupper(r))) | ((c >= tolower(l)) & (c <= tolower(r))) : (c >= l) & (c <= r);
}
/* does the character c belong to the set that starts at node i */
static int sp_set(const TRexNode* a, int i, int n, int c, int icase) {
    if (i < 0 || i >= n) return 0;
    if (a[i].type == OP_RANGE ? range(c, a[i].left, a[i].right, icase) : a[i].type == OP_CCLASS ? pure_cclass(a[i].left, c) : same(c, a[i].type, icase)) return 1;
    return a[i].next == -1 ? 0 : sp_set(a, a[i].next, n, c, icase);
}

/* every node refers to nodes of the array only */
static int in(int i) { return (i >= 0) & (i < g_n); }
static int ok_node(void* p, size_t i) {
    TRexNode* o = p;
    int t = o->type, next = (o->next == -1) | ((o->next > (int)i) & (o->next < g_n));
    int left = in(o->left), right = in(o->right);
    int g = ((t != OP_GREEDY) & (t != OP_OR) & (t != OP_EXPR) & (t != OP_NOCAPEXPR) & (t != OP_NCLASS) & (t != OP_CLASS)) | left;
    return next & g & ((t != OP_OR) | right) & ((t != OP_EXPR) | ((o->right >= 0) & (o->right < g_sub))) & (t != 0);
}
static void expression(void) {
    g_n = vp_range(1, 1000000);
    g_sub = vp_range(1, 1000000);
    g_exp = malloc(sizeof *g_exp);
    g_exp->_nodes = vp_array((size_t)g_n, sizeof(TRexNode), 0, ok_node);
    g_exp->_nsize = g_n;
    g_exp->_nsubexpr = g_sub;
    g_exp->_matches = vp_buf((size_t)g_sub * sizeof(TRexMatch));
    g_exp->_flags = vp_int();
    g_exp->_currsubexp = vp_int();
    g_text = vp_cstr("a|b| ");
    g_len = strlen(g_text);
    g_exp->_bol = g_text;
    g_exp->_eol = g_text + g_len;
}

/* contract: the result is NULL or a place from str on, up to the end of the text */
LEMMA const char* c_matchnode(TRex* exp, TRexNode* node, const char* str, TRexNode* next) {
    size_t r = vp_size(1), o = vp_off(str) - vp_off(g_text);
    vp_requires(exp == g_exp, "the expression itself");
    vp_requires(vp_same_object(str, g_text), "the text itself");
    vp_requires(o <= g_len, "no place after the end of the text");
    vp_requires(vp_same_object(node, exp->_nodes), "a node of the expression");
    vp_requires(vp_off(node) % sizeof(TRexNode) == 0 && vp_off(node) / sizeof(TRexNode) < (size_t)g_n, "a node of the expression");
    if (next) vp_requires(vp_same_object(next, exp->_nodes) && vp_off(next) % sizeof(TRexNode) == 0 && vp_off(next) / sizeof(TRexNode) < (size_t)g_n, "a next node of the expression");
    vp_havoc_int(&exp->_currsubexp);
    if (vp_choice(2)) return NULL;
    vp_assume((r >= o) & (r <= g_len));
    return g_text + r;
}
LEMMA unsigned c_matchclass(TRex* exp, TRexNode* node, char c) {
    vp_requires(exp == g_exp && vp_same_object(node, exp->_nodes), "a node of the expression");
    vp_requires(vp_off(node) % sizeof(TRexNode) == 0 && vp_off(node) / sizeof(TRexNode) < (size_t)g_n, "a node of the expression");
    return (unsigned)sp_set(exp->_nodes, (int)(vp_off(node) / sizeof(TRexNode)), g_n, c, (exp->_flags & ARG_REX_ICASE) != 0);
}
LEMMA unsigned c_matchcclass(int k, char c) { return (unsigned)pure_cclass(k, c); }

LEMMA int inv_place(const char* s) { return s == NULL || (vp_same_object(s, g_text) && vp_off(s) - vp_off(g_text) <= g_len); }
LEMMA int inv_node(TRexNode* n) { return n == NULL || (vp_same_object(n, g_exp->_nodes) && vp_off(n) % sizeof(TRexNode) == 0 && vp_off(n) / sizeof(TRexNode) < (size_t)g_n); }

void h_matchnode(void) {
    size_t o, k, m;
    int t;
    const char* r;
    TRexNode* next = NULL;
    expression();
    o = vp_index(g_len + 1);
    k = vp_index((size_t)g_n);
    m = vp_index((size_t)g_n);
    if (vp_choice(2)) next = g_exp->_nodes + m;
    r = trex_matchnode(g_exp, g_exp->_nodes + k, g_text + o, next);
    vp_cover("returned");
    t = g_exp->_nodes[k].type;
    if (t != OP_GREEDY && t != OP_OR && t != OP_EXPR && t != OP_NOCAPEXPR && t != OP_WB) {
        TRexNode* x = g_exp->_nodes + k;
        int ic = (g_exp->_flags & ARG_REX_ICASE) != 0, c = g_text[o], w;
        if (t == OP_BOL || t == OP_EOL) {
            vp_assert(r == (o == (t == OP_BOL ? 0 : g_len) ? g_text + o : NULL), "an anchor matches its end of the text only, and no character");
            return;
        }
        w = t == OP_DOT ? 1 : t == OP_CLASS ? sp_set(g_exp->_nodes, x->left, g_n, c, ic) : t == OP_NCLASS ? !sp_set(g_exp->_nodes, x->left, g_n, c, ic) : t == OP_CCLASS ? pure_cclass(x->left, c) : same(c, t, ic);
        vp_assert(r == (o < g_len && w ? g_text + o + 1 : NULL), "a character, dot or set matches one character of the text that belongs to it, and nothing else");
        return;
    }
    if (r == NULL) return;
    vp_cover("match");
    vp_assert(vp_same_object(r, g_text), "a match ends within the text");
    vp_assert(r >= g_text + o && r <= g_text + g_len, "a match ends between its start and the end of the text");
}
LEMMA int inv_set(TRexNode* node) {
    return sp_set(g_exp->_nodes, (int)(vp_off(node) / sizeof(TRexNode)), g_n, g_c, (g_exp->_flags & ARG_REX_ICASE) != 0) ==
           sp_set(g_exp->_nodes, g_i0, g_n, g_c, (g_exp->_flags & ARG_REX_ICASE) != 0);
}
void h_matchclass(void) {
    unsigned r;
    expression();
    g_c = (signed char)vp_uchar();
    g_i0 = (int)vp_index((size_t)g_n);
    r = trex_matchclass(g_exp, g_exp->_nodes + g_i0, (char)g_c);
    vp_cover("class");
    vp_assert(r == (unsigned)sp_set(g_exp->_nodes, g_i0, g_n, g_c, (g_exp->_flags & ARG_REX_ICASE) != 0), "a set holds the characters, ranges and classes written in it");
}
void h_matchcclass(void) {
    int k = vp_range(-128, 127), c = (signed char)vp_uchar();
    vp_cover("character class");
    vp_assert(trex_matchcclass(k, (char)c) == (unsigned)cclass(k, c), "a character class holds the characters it stands for");
}
void h_match(void) {
    TRexBool r;
    expression();
    r = trex_match(g_exp, g_text);
    vp_cover("done");
    vp_assert(r <= 1, "matched or not");
}
