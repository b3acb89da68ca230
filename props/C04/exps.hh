// (2^n-1)/p for the primes p dividing 2^n-1, little-endian words
static const uint64_t exps32[][3] = {
	{ 0x55555555ull, 0x0ull, 0x0ull }, // p = 3
	{ 0x33333333ull, 0x0ull, 0x0ull }, // p = 5
	{ 0xf0f0f0full, 0x0ull, 0x0ull }, // p = 17
	{ 0xff00ffull, 0x0ull, 0x0ull }, // p = 257
	{ 0xffffull, 0x0ull, 0x0ull }, // p = 65537
};
static const uint64_t exps64[][3] = {
	{ 0x5555555555555555ull, 0x0ull, 0x0ull }, // p = 3
	{ 0x3333333333333333ull, 0x0ull, 0x0ull }, // p = 5
	{ 0xf0f0f0f0f0f0f0full, 0x0ull, 0x0ull }, // p = 17
	{ 0xff00ff00ff00ffull, 0x0ull, 0x0ull }, // p = 257
	{ 0x663d80ff99c27full, 0x0ull, 0x0ull }, // p = 641
	{ 0xffff0000ffffull, 0x0ull, 0x0ull }, // p = 65537
	{ 0x280fffffd7full, 0x0ull, 0x0ull }, // p = 6700417
};
static const uint64_t exps128[][3] = {
	{ 0x5555555555555555ull, 0x5555555555555555ull, 0x0ull }, // p = 3
	{ 0x3333333333333333ull, 0x3333333333333333ull, 0x0ull }, // p = 5
	{ 0xf0f0f0f0f0f0f0full, 0xf0f0f0f0f0f0f0full, 0x0ull }, // p = 17
	{ 0xff00ff00ff00ffull, 0xff00ff00ff00ffull, 0x0ull }, // p = 257
	{ 0x663d80ff99c27full, 0x663d80ff99c27full, 0x0ull }, // p = 641
	{ 0xffff0000ffffull, 0xffff0000ffffull, 0x0ull }, // p = 65537
	{ 0xffffc2cf0e632effull, 0x3d30f19cd100ull, 0x0ull }, // p = 274177
	{ 0x280fffffd7full, 0x280fffffd7full, 0x0ull }, // p = 6700417
	{ 0xfffffffffffbd0ffull, 0x42f00ull, 0x0ull }, // p = 67280421310721
};
static const uint64_t exps160[][3] = {
	{ 0x5555555555555555ull, 0x5555555555555555ull, 0x55555555ull }, // p = 3
	{ 0x3333333333333333ull, 0x3333333333333333ull, 0x33333333ull }, // p = 5
	{ 0xd1745d1745d1745dull, 0x5d1745d1745d1745ull, 0x1745d174ull }, // p = 11
	{ 0xf0f0f0f0f0f0f0full, 0xf0f0f0f0f0f0f0full, 0xf0f0f0full }, // p = 17
	{ 0x1084210842108421ull, 0x2108421084210842ull, 0x8421084ull }, // p = 31
	{ 0x7063e7063e7063e7ull, 0xe7063e7063e7063eull, 0x63e7063ull }, // p = 41
	{ 0xff00ff00ff00ffull, 0xff00ff00ff00ffull, 0xff00ffull }, // p = 257
	{ 0xfffef00010fffefull, 0xef00010fffef0001ull, 0x10fffull }, // p = 61681
	{ 0xffff0000ffffull, 0xffff0000ffffull, 0xffffull }, // p = 65537
	{ 0xd78bb803347653ffull, 0x47fccb89ac00ffffull, 0x2874ull }, // p = 414721
	{ 0x100fffffffeffull, 0xfffffffeff0000ull, 0x1ull }, // p = 4278255361
	{ 0xfffffff9abf8abffull, 0x654075400ffffull, 0x0ull }, // p = 44479210368001
};
