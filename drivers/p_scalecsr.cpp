// probe: the documented scalar products of both sparse formats compile
#include <memory>
#include "src/LinearAlgebra/Models/CSR.h"
#include "src/LinearAlgebra/Models/LILCSR.h"
int main() {
    CSR<double> A(2, 2);
    CSR<double> B = 2.0 * A, C = A * 2.0, D = A / 2.0, E = A + B, F = A - B, G = 2 * A;
    LILCSR<double> a(2, 2);
    LILCSR<double> b = 2.0 * a, c = a * 2.0, d = a / 2.0, e = a + b, f = a - b;
    return (int)(B.get(0, 0) + b.get(0, 0));
}
