G = 'src/posit10_gen.cpp'
B = 'src/binary8_gen.cpp'
EDITS = [
 (G, "int main(int argc, char const *argv[])\n{\n", """static int slot(int16_t s)
{
	return s & 1023;
}

template <class C>
static void table(std::ostream & os, const char * type, const char * name, const C * data, int n)
{
	os << type << " " << name << "[] = {\\n";
	for(const C * p = data; p != data + n; ++p)
		os << *p << ",";
	os << "};" << std::endl;
}

int main(int argc, char const *argv[])
{
"""),
 (G, "		int32_t i = ((unsigned int)(uint16_t)s) & 0x03FF;\n", "		const int i = slot(s);\n"),
 (G, "		int32_t i1 = ((unsigned int)(uint16_t)s1) & 0x03FF;\n		float f1", "		int i1 = slot(s1);\n		const float f1"),
 (G, "			int32_t i2 = ((unsigned int)(uint16_t)s2) & 0x03FF;\n", "			int i2 = slot(s2);\n			const int at = (i1 << 10) | i2;\n"),
 (G, "	        opadd[i1*1024+i2] = X(f1+f2).v;\n	        opmul[i1*1024+i2] = X(f1*f2).v;\n	        opdiv[i1*1024+i2] = X(f1/f2).v;\n",
     "	        opdiv[at] = X(f1/f2).v;\n	        opmul[at] = X(f1*f2).v;\n	        opadd[at] = X(f1+f2).v;\n"),
 (G, '''	onf << "int16_t opmul[] = {\\n";
	for(int i  = 0; i < 1024*1024; i++)
		onf << (int)(opmul[i]) << ",";
	onf << "}; " << std::endl;
	onf << "int16_t opadd[] = {\\n";
	for(int i  = 0; i < 1024*1024; i++)
		onf << (int)(opadd[i]) << ",";
	onf << "}; " << std::endl;
''', '''	table(onf, "int16_t", "opadd", opadd, 1024*1024);
	table(onf, "int16_t", "opmul", opmul, 1024*1024);
'''),
 (B, '''	onf << "int8_t opexp2[] = {\\n";
	for(int i  = 0; i < 256; i++)
		onf << (int)(opexp2[i]) << ",";
	onf << "}; " << std::endl;
''', '''	onf << "int8_t opexp2[] = {\\n";
	int k = 0;
	while(k < 256)
	{
		onf << int(opexp2[k]);
		onf << ",";
		k++;
	}
	onf << "}; " << std::endl;
'''),
 ('src/posit12_gen.cpp', "	for(int16_t s = -2048 ; s < 2048; s++)\n	{\n		X x;\n		x.v = s;\n		int32_t i = ((unsigned int)(uint16_t)s) & 0x0FFF;\n",
  "	for(int n = 0; n < 4096; n++)\n	{\n		const int16_t s = (int16_t)(n - 2048);\n		X x(X::DeepInit(),s);\n		int32_t i = ((unsigned int)(uint16_t)s) & 0x0FFF;\n"),
]
