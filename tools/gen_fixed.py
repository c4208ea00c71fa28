#!/usr/bin/env python3
"""Prints the 'fixed:' lines of known_findings.txt from /repo's log."""
import subprocess
P = """erk.hpp be included:C25;explicit RK output follow:C09;at most max_steps:C08;merge the function and Jacobi:C12;initialise the status and timing:C07;factorise the stage Jacobi:C25;refresh_jac = 0:C28;convert ms to s:C24;orders of GAUSS_LEGENDRE_147:C01;unknown names to the method tables:C19;integrate with a constant step size:C02;whose coefficient matrix is singular:C02;store the stages of implicit:C18;maximum time step size to the first:C04;define the functions that the headers:C19;Broyden's method does not converge:C14;max_step in Broyden:C14;cyclic_buffer assignable:C16;usable after resize:C16;iterators of cyclic_buffer:C16;bootstrap multistep methods with:C21;stages of the multistep bootstrap:C21;past slopes at their own time:C20;invalid Adams-Bashforth order:C20;explicit coefficients for the region:C26;missing embedded methods and poles:C26;slope at the start of the step in the embedded stability:C26;error estimate of implicit methods with the step size once:C06;embedded GAUSS_LEGENDRE_42 weights:C01;embedded RADAU_IIA_32 weights:C01;embedded LOBATTO_IIIC weights:C01;LOBATTO_IIIA_127 an error estimate:C01;accessors of a cyclic_buffer:C16;not zero for quadrature:C05;attempts whose error is not a number:C06;singular Jacobi matrix for convergence:C13;limit huge Newton steps:C13;single collocation point:C17;use the caller's functor:C29;time of failed Newton attempts once:C24;precision of the stream as it was after the timing:C24;precision of the stream as it was after a coefficient set:C31"""
P = [x.strip().rsplit(":", 1) for x in P.split(";")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [p for k, p in P if k in s]
    assert len(m) == 1, (s, m)
    print("fixed: property=%s %s %s" % (m[0], h, s[5:]))
