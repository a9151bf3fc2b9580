# the circuit generator bin/gen
import os
R = os.environ.get("ST_REPO", "/repo")
G = "bin/gen.cpp"
MUTANTS = []


def m(name, edits, expect=None):
    MUTANTS.append(("g-" + name, "gen", expect, {G: edits}))


S = open(os.path.join(R, G), newline="").read().replace("\r\n", "\n")
B = ["G02"]
# bugs
m("m0-wire", [('10, j, (j << 1), 0', '10, j, (j << 1) + 2, 0')], B)
m("m0-depth", [('for(int k = 1; k < d - 1; ++k)\n		{\n			n = (1 << w);\n			printf', 'for(int k = 0; k < d - 1; ++k)\n		{\n			n = (1 << w);\n			printf')], B)
m("m0-last", [('for(int j = 0; j < n; ++j)\n		{\n			printf("%d %d %d %d ", 10', 'for(int j = 0; j < n - 1; ++j)\n		{\n			printf("%d %d %d %d ", 10')], B)
m("m0-half", [('n = (1 << (w - 1));\n		printf', 'n = (1 << w) / 3;\n		printf')], B)
m("m0-first", [('"%d %d %d %d ", 3, j, rand(), 0', '"%d %d %d %d ", 4, j, rand(), 0')], B)
m("m1-block", [('fprintf(meta, "%d %d %d %d %d\\n", block_size, block_number, 4, w - 5, str_length)', 'fprintf(meta, "%d %d %d %d %d\\n", block_size, block_number, 5, w - 5, str_length)')], B)
m("m1-wire", [('int nxtb = (i * block_size * 2) + j * 2 + 1;', 'int nxtb = (i * block_size * 2) + j * 2 + 2;')], B)
m("m1-id", [('int id = (i * block_size) + j;', 'int id = (j * block_number) + i;')], B)
m("m1-stale", [('		n = (1 << (w - 1));\n		block_size = n / block_number;', '		n = (1 << (w - 1));')], B)
m("m2-tree", [('num_leaves /= 2;', 'num_leaves = (num_leaves + 1) / 2 + 0 * dep;')], None)
m("m2-depth", [('printf("%d\\n", 1 + 1 + log_mat_sz)', 'printf("%d\\n", 1 + log_mat_sz)')], B)
m("m2-log", [('num_leaves, block_number, log_mat_sz - dep - 1', 'num_leaves, block_number, log_mat_sz - dep')], B)
m("m2-id", [('int id = i * mat_sz * num_leaves + j * num_leaves + k;', 'int id = i * mat_sz * num_leaves + k * mat_sz + j;')], B)
m("m2-id2", [('int id = i * mat_sz * num_leaves + j * num_leaves + k;', 'int id = i * mat_sz * mat_sz + j * num_leaves + k;')], B)
m("m2-wire", [('str_length += printf("%d %d %d %d ", 0, id, id * 2, id * 2 + 1);', 'str_length += printf("%d %d %d %d ", 0, id, id, id + num_leaves * mat_sz * mat_sz + 1);')], B)
m("m4-range", [('j * mat_sz + mat_sz);', 'j * mat_sz + mat_sz + 1);')], B)
m("m4-square", [('int a = i * k, b = k * j;', 'int a = i * mat_sz + k, b = mat_sz * mat_sz * 2 + k * mat_sz + j;')], B)
m("m5-d", [('printf("%d\\n", 2);', 'printf("%d\\n", d);')], B)
# only for some parameters
m("c-deep", [('10, j, (j << 1), 0', '10, j, d > 12 ? (j << 2) : (j << 1), 0')], B)
m("c-wide", [('n = (1 << (w - 1));\n		printf', 'n = w > 12 ? (1 << 12) + 1 : (1 << (w - 1));\n		printf')], B)
m("c-lastgate", [('			printf("%d %d %d %d ", 10, j, (j << 1), 0);', '			if(j == n - 1 && w > 9)\n				printf("%d %d %d %d ", 10, j, n * 2, 0);\n			else\n				printf("%d %d %d %d ", 10, j, (j << 1), 0);')], B)
m("c-big", [('printf("%d\\n", 1 + 1 + log_mat_sz);', 'printf("%d\\n", mat_sz > 64 ? 1 + log_mat_sz : 2 + log_mat_sz);')], B)
m("c-one", [('printf("%d\\n", 1 + 1 + log_mat_sz);', 'printf("%d\\n", mat_sz == 1 ? 1 + log_mat_sz : 2 + log_mat_sz);')], B)
m("c-clip", [('int nxtb = (i * block_size * 2) + j * 2 + 1;', 'int nxtb = (i * block_size * 2) + j * 2 + 1;\n				if(w > 12 && i == 0)\n					nxtb = n * 2;')], B)
m("c-trunc", [('int id = i * mat_sz * mat_sz + j * mat_sz + k;\n					str_length', 'int id = i * mat_sz * mat_sz + (j * mat_sz + k) % (mat_sz > 128 ? 1 << 14 : mat_sz * mat_sz);\n					str_length')], B)
# behaviour kept
m("ok-tern", [('10, j, (j << 1), 0', '10, j, d > 12 ? j * 2 : (j << 1), 0')])
m("ok-if", [('			printf("%d %d %d %d ", 10, j, (j << 1), 0);', '			if(j == n - 1)\n				printf("%d %d %d %d ", 10, j, n * 2 - 2, 0);\n			else\n				printf("%d %d %d %d ", 10, j, (j << 1), 0);')])
m("ok-atoi", [('sscanf(argv[1], "%d", &mode);', 'mode = atoi(argv[1]);')])
m("ok-helper", [('int main(int argc, char **argv)', 'static int gate(int ty, int g, int u, int v)\n{\n	return printf("%d %d %d %d ", ty, g, u, v);\n}\n\nint main(int argc, char **argv)'),
                ('printf("%d %d %d %d ", 10, j, (j << 1), 0);', 'gate(10, j, (j << 1), 0);'), ('str_length += printf("%d %d %d %d ", 1, id, nxta, nxtb);', 'str_length += gate(1, id, nxta, nxtb);')])
m("ok-flat", [('''			for(int j = 0; j < block_size; ++j)
			{
				int id = (i * block_size) + j;
				int nxta = (i * block_size * 2) + j * 2;
				int nxtb = (i * block_size * 2) + j * 2 + 1;
				str_length += printf("%d %d %d %d ", 1, id, nxta, nxtb);
			}
''', '''			for(int id = i * block_size; id < (i + 1) * block_size; ++id)
				str_length += printf("%d %d %d %d ", 1, id, 2 * id, 2 * id + 1);
''')])
m("ok-while", [('''		for(int dep = 0; dep < log_mat_sz; ++dep)
		{
			num_leaves /= 2;''', '''		for(int dep = 0; dep < log_mat_sz; ++dep)
		{
			num_leaves = num_leaves >> 1;''')])
m("ok-leaves", [('			num_leaves /= 2;', '			num_leaves = mat_sz >> (dep + 1);')])
m("ok-log", [('		while(mat_sz != (1 << log_mat_sz))\n			log_mat_sz++;', '		for(int s = mat_sz; s > 1; s >>= 1)\n			++log_mat_sz;', 2)])
m("ok-logb", [('		while(mat_sz != (1 << log_mat_sz))\n			log_mat_sz++;', '		while((1 << log_mat_sz) < mat_sz)\n			log_mat_sz++;', 2)])
m("ok-run", [('''				for(int k = 0; k < mat_sz; ++k)
				{
					int id = i * mat_sz * mat_sz + j * mat_sz + k;
					str_length''', '''				for(int k = 0; k < mat_sz; ++k)
				{
					int id = (i * mat_sz + j) * mat_sz + k;
					str_length''')])
m("ok-counter", [('''				for(int k = 0; k < num_leaves; ++k)
					{
						int id = i * mat_sz * num_leaves + j * num_leaves + k;''', '''				for(int k = 0; k < num_leaves; ++k)
					{
						int id = next++;'''), ('			num_leaves /= 2;\n', '			num_leaves /= 2;\n			int next = 0;\n')])
m("ok-switch", [('	if(mode == 0) //three', '	const bool simple = mode == 0;\n	if(simple) //three')])
m("ok-split", [('printf("%d\\n", d);\n		int n = (1 << w);\n		printf("%d ", n);\n		for(int j = 0; j < n; ++j)\n		{\n			printf("%d %d %d %d ", 3, j, rand(), 0);', 'printf("%d\\n", d);\n		int n = (1 << w);\n		printf("%d ", n);\n		for(int j = 0; j < n; ++j)\n		{\n			printf("%d %d ", 3, j);\n			printf("%d %d ", rand(), 0);')])
m("ok-down", [('			for(int j = 0; j < n; ++j)\n			{\n				printf("%d %d %d %d ", 8, j, j, 0);', '			for(int r = n; r > 0; --r)\n			{\n				int j = n - r;\n				printf("%d %d %d %d ", 8, j, j, 0);')])
m("ok-fputs", [('printf("\\n");\n		for(int k = 1; k < d - 1; ++k)', 'putchar(\'\\n\');\n		for(int k = 1; k < d - 1; ++k)')])
# more restructurings
m("ok-lambda", [('			printf("%d %d %d %d ", 10, j, (j << 1), 0);', '			auto out = [&](int x){ printf("%d ", x); };\n			out(10); out(j); out(2 * j); out(0);')])
m("ok-blocks-loop", [('''		for(int i = 0; i < block_number; ++i)
		{
			for(int j = 0; j < block_size; ++j)
			{
				int id = (i * block_size) + j;''', '''		for(int id = 0; id < n; ++id)
		{
			{
				int i = id / block_size, j = id % block_size;''')])
m("ok-one-loop", [('''		for(int i = 0; i < mat_sz; ++i)
		{
			for(int j = 0; j < mat_sz; ++j)
			{
				printf("5 %d %d %d ", i * mat_sz + j, i * mat_sz * mat_sz + j * mat_sz, i * mat_sz * mat_sz + j * mat_sz + mat_sz);
			}
		}''', '''		for(int r = 0; r < mat_sz * mat_sz; ++r)
			printf("%d %d %d %d ", 5, r, r * mat_sz, (r + 1) * mat_sz);''')])
m("ok-meta-fn", [('int main(int argc, char **argv)', 'static void describe(FILE *meta, int a, int b, int c, int d, int l)\n{\n	fprintf(meta, "%d %d %d %d %d\\n", a, b, c, d, l);\n}\n\nint main(int argc, char **argv)'),
                 ('fprintf(meta, "%d %d %d %d %d\\n", block_size, block_number, 4, w - 5, str_length);', 'describe(meta, block_size, block_number, 4, w - 5, str_length);')])
m("ok-widthfn", [('int main(int argc, char **argv)', 'static int width(int w)\n{\n	return 1 << w;\n}\n\nint main(int argc, char **argv)'), ('n = (1 << (w - 1));\n		printf', 'n = width(w - 1);\n		printf')])
m("ok-layer-fn", [('int main(int argc, char **argv)', '''static void inputs(int n)
{
	printf("%d ", n);
	for(int j = 0; j < n; ++j)
		printf("%d %d %d %d ", 3, j, rand(), 0);
	printf("\\n");
}

int main(int argc, char **argv)'''), ('''		int n = (1 << w);
		printf("%d ", n);
		for(int j = 0; j < n; ++j)
		{
			printf("%d %d %d %d ", 3, j, rand(), 0);
		}
		printf("\\n");
''', '''		int n = (1 << w);
		inputs(n);
''')])
m("ok-modefn", [('int main(int argc, char **argv)\n{', '''static void sumtest(int w)
{
	printf("%d\\n", 2);
	int n = 1 << w;
	printf("%d ", n);
	int j = 0;
	while(j < n)
	{
		printf("%d %d %d %d ", 3, j, 1, 0);
		j++;
	}
	printf("\\n2 5 0 0 0 5 1 0 0\\n");
}

int main(int argc, char **argv)
{'''), (S[S.index('		printf("%d\\n", 2);'):S.index('	return 0;')], '		sumtest(w);\n	}\n')])
m("ok-switchcase", [('	if(mode == 0) //three layers of simple circuit\n	{', '	switch(mode)\n	{\n	case 0: //three layers of simple circuit\n	{'), ('	else if(mode == 1) //blocked circuit', '	break;\n	case 1: //blocked circuit'), ('	else if(mode == 2) //', '	break;\n	case 2: //'), ('	else if(mode == 3) //', '	break;\n	case 3: //'), ('	else if(mode == 4) //', '	break;\n	case 4: //'), ('	else if(mode == 5) //addition tree test', '	break;\n	case 5: //addition tree test'), ('	return 0;', '	break;\n	}\n	return 0;')])
m("ok-cout", [('#include <cstdio>', '#include <cstdio>\n#include <iostream>'), ('printf("%d\\n", d);\n		int n = (1 << w);\n		printf("%d ", n);\n		for(int j = 0; j < n; ++j)\n		{\n			printf("%d %d %d %d ", 3, j, rand(), 0);', 'cout << d << "\\n";\n		int n = (1 << w);\n		printf("%d ", n);\n		for(int j = 0; j < n; ++j)\n		{\n			printf("%d %d %d %d ", 3, j, rand(), 0);')])
m("ok-tree-top", [('''		int num_leaves = mat_sz;
		for(int dep = 0; dep < log_mat_sz; ++dep)
		{
			num_leaves /= 2;''', '''		int num_leaves = mat_sz / 2;
		for(int dep = 0; dep < log_mat_sz; ++dep, num_leaves /= 2)
		{''')])
m("ok-tree-while", [('''		int num_leaves = mat_sz;
		for(int dep = 0; dep < log_mat_sz; ++dep)
		{
			num_leaves /= 2;''', '''		int num_leaves = mat_sz, dep = -1;
		while(num_leaves > 1)
		{
			++dep;
			num_leaves /= 2;''')])
# more bugs
m("tree-while-bad", [('''		int num_leaves = mat_sz;
		for(int dep = 0; dep < log_mat_sz; ++dep)
		{
			num_leaves /= 2;''', '''		int num_leaves = mat_sz, dep = -1;
		while(num_leaves > 2)
		{
			++dep;
			num_leaves /= 2;''')], B)
m("sz0", [('		for(int k = 1; k < d - 1; ++k)\n		{\n			n = (1 << w);\n			printf', '		for(int k = 1; k <= d - 2 - (w & 1); ++k)\n		{\n			n = (1 << w);\n			printf')], B)
m("inp-skip", [('printf("%d %d %d %d ", 3, j, 1, 0);', 'if(j != 7 || w != 3) printf("%d %d %d %d ", 3, j, 1, 0);')], B)
m("dummy-tail", [('printf("%d %d %d %d ", 8, j, j, 0);', 'printf("%d %d %d %d ", d > 6 ? 3 : 8, j, j, 0);')], B)
m("sum-wrap", [('int nxta = (i * block_size * 2) + j * 2;', 'int nxta = ((i ^ (w > 10)) * block_size * 2) + j * 2;')], B)
# wires that leave their block
m("b-next", [('int nxta = (i * block_size * 2) + j * 2;', 'int nxta = ((i + 1) % block_number * block_size * 2) + j * 2;')], B)
m("b-mirror", [('int nxtb = (i * block_size * 2) + j * 2 + 1;', 'int nxtb = n * 2 - 1 - (i * block_size * 2) - j * 2;')], B)
m("b-half", [('str_length += printf("%d %d %d %d ", 0, id, id * 2, id * 2 + 1);', 'str_length += printf("%d %d %d %d ", 0, id, id, id + num_leaves * mat_sz * mat_sz);')], B)
m("b-ok-mirror", [('int nxtb = (i * block_size * 2) + j * 2 + 1;', 'int nxtb = (i * block_size * 2) + (block_size * 2 - 1 - j * 2);')])
m("b-ok-half", [('str_length += printf("%d %d %d %d ", 0, id, id * 2, id * 2 + 1);', 'str_length += printf("%d %d %d %d ", 0, id, (i * mat_sz + j) * num_leaves * 2 + k, (i * mat_sz + j) * num_leaves * 2 + k + num_leaves);')])
m("r-argc", [('	int mode;\n', '	if(argc < 3)\n	{\n		fprintf(stderr, "usage: gen mode parameters\\n");\n		return 1;\n	}\n	int mode;\n')])
m("r-argc2", [('		int d, w;\n		sscanf(argv[2], "%d", &d);\n		sscanf(argv[3], "%d", &w);\n		assert', '		int d, w;\n		if(argc != 4)\n			return 1;\n		sscanf(argv[2], "%d", &d);\n		sscanf(argv[3], "%d", &w);\n		assert') if False else ('		assert(w > 5);', '		if(argc != 4 || w <= 5)\n			return 1;')])
m("r-return", [('	else if(mode == 1) //blocked', '	if(mode == 1) //blocked'), ('			printf("%d %d %d %d ", 10, j, (j << 1), 0);\n		}\n		printf("\\n");', '			printf("%d %d %d %d ", 10, j, (j << 1), 0);\n		}\n		printf("\\n");\n		return 0;')])
m("r-sscanf-check", [('	sscanf(argv[1], "%d", &mode);', '	if(sscanf(argv[1], "%d", &mode) != 1)\n		return 1;')])
m("r-const", [('			printf("%d %d %d %d ", 10, j, (j << 1), 0);', '			const int relay = 10;\n			int src = j << 1;\n			printf("%d %d %d %d ", relay, j, src, 0);')])
m("r-enum", [('int main(int argc, char **argv)', 'enum { ADD = 0, MULT = 1, INPUT = 3, SUM = 5, XOR = 8, RELAY = 10 };\n\nint main(int argc, char **argv)'), ('"%d %d %d %d ", 10, j', '"%d %d %d %d ", RELAY, j'), ('"%d %d %d %d ", 8, j', '"%d %d %d %d ", XOR, j')])
m("r-hoist", [('		printf("%d\\n", 1 + 1 + log_mat_sz);', '		const int sq = mat_sz * mat_sz;\n		printf("%d\\n", 2 + log_mat_sz);'), ('int id = i * mat_sz * mat_sz + j * mat_sz + k;\n					str_length', 'int id = i * sq + j * mat_sz + k;\n					str_length'), ('str_length = printf("%d ", num_leaves * mat_sz * mat_sz);', 'str_length = printf("%d ", num_leaves * sq);')])
m("r-do", [('''		int j = 0;''', '''		int j = 0;''') if False else ('		for(int k = 1; k < d - 1; ++k)\n		{\n			n = (1 << w);\n			printf', '		int k = 1;\n		while(k++ < d - 1)\n		{\n			n = (1 << w);\n			printf')])
m("r-vec", [('		vector<vector<int> > A, B;\n		A.resize(mat_sz), B.resize(mat_sz);', '		vector<vector<int> > A(mat_sz, vector<int>(mat_sz)), B(mat_sz, vector<int>(mat_sz));', 2), ('			A[i].resize(mat_sz);\n			B[i].resize(mat_sz);\n', '', 2)])
m("r-struct", [('int main(int argc, char **argv)', 'struct gate_t { int ty, g, u, v; };\n\nint main(int argc, char **argv)'), ('printf("%d %d %d %d ", 10, j, (j << 1), 0);', 'gate_t q = {10, j, j << 1, 0};\n			printf("%d %d %d %d ", q.ty, q.g, q.u, q.v);')])
m("r-rowfn", [('int main(int argc, char **argv)', '''static int pairs(int ty, int n)
{
	int len = printf("%d ", n);
	for(int g = 0; g < n; ++g)
		len += printf("%d %d %d %d ", ty, g, g * 2, g * 2 + 1);
	return len + printf("\\n");
}

int main(int argc, char **argv)'''), (S[S.index('			str_length = printf("%d ", num_leaves * mat_sz'):S.index('			fprintf(meta, "%d %d %d %d %d\\n", num_leaves')], '			str_length = pairs(0, num_leaves * mat_sz * mat_sz);\n')])
m("r-unused", [('int main(int argc, char **argv)\n{', 'int main(int argc, char **argv)\n{\n	int nothing = 0;\n	(void)nothing;')])
m("r-popcount", [('		assert(__builtin_popcount(mat_sz) == 1);', '		assert(mat_sz > 0 && (mat_sz & (mat_sz - 1)) == 0);', 2)])
m("r-popexit", [('		assert(__builtin_popcount(mat_sz) == 1);', '		if(__builtin_popcount(mat_sz) != 1)\n			return 1;', 2)])
m("r-continue", [('			printf("%d %d %d %d ", 10, j, (j << 1), 0);', '			if(j >= n)\n				continue;\n			printf("%d %d %d %d ", 10, j, (j << 1), 0);')])
m("r-long", [('int n = (1 << w);\n		printf("%d ", n);\n		for(int j = 0; j < n; ++j)\n		{\n			printf("%d %d %d %d ", 3, j, rand(), 0);', 'int n = (1 << w);\n		printf("%d ", n);\n		for(int j = 0; j < n; ++j)\n		{\n			printf("%d %d %lld %lld ", 3, j, (long long)rand(), 0LL);')])
m("r-static-rand", [('printf("%d %d %d %d ", 3, j, rand(), 0);', 'int x = rand();\n			printf("%d %d %d %d ", 3, j, x, 0);')])
m("r-sum-end", [('printf("2 5 0 0 0 5 1 0 0\\n");', 'printf("%d ", 2);\n		for(int j = 0; j < 2; ++j)\n			printf("%d %d %d %d ", 5, j, 0, 0);\n		printf("\\n");')])
m("r-main2", [('int main(int argc, char **argv)', 'int generate(int argc, char **argv)'), ('	return 0;\n}', '	return 0;\n}\n\nint main(int argc, char **argv)\n{\n	return generate(argc, argv);\n}')])
m("r-string", [('#include <vector>', '#include <vector>\n#include <string>'), ('	int mode;\n	sscanf(argv[1], "%d", &mode);', '	int mode = std::stoi(argv[1]);')])
m("r-args", [('	int mode;\n	sscanf(argv[1], "%d", &mode);', '	char **p = argv + 1;\n	int mode = atoi(*p);')])
m("r-readarg", [('int main(int argc, char **argv)', 'static int number(const char *s)\n{\n	int x;\n	sscanf(s, "%d", &x);\n	return x;\n}\n\nint main(int argc, char **argv)'), ('	int mode;\n	sscanf(argv[1], "%d", &mode);', '	int mode = number(argv[1]);'), ('		int d, w;\n		sscanf(argv[2], "%d", &d);\n		sscanf(argv[3], "%d", &w);', '		int d = number(argv[2]), w = number(argv[3]);', 3)])
