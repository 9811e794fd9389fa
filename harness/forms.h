/* All forms of asking a magnetic field about a point. */
static void forms(MagneticField2D *m, double x, double y, double z, bool flux) {
    double B[3], J[3][3], c[3], g[3], a, *v = m->Eval(x, y, z);
    for (int i = 0; i < 3; i++) B[i] = v[i];
    { struct magnetic_field_data &d = m->EvalDerivatives(x, y, z); a = d.Babs; for (int i = 0; i < 3; i++) { c[i] = d.curlB[i]; g[i] = d.gradB[i]; for (int j = 0; j < 3; j++) J[i][j] = d.J[i][j]; } }
    double psi = 0, pr = 0, pz = 0;
    if (flux) { psi = m->EvalFlux(x, y, z); struct flux_diff *f = m->EvalFluxDerivatives(x, y, z); pr = f->dpsi_dR; pz = f->dpsi_dZ; SYM_EQ(f->psi, psi, "flux comes with its derivatives"); }
    double p[3] = {x, y, z}; Vector<3> q(p);
    for (int k = 0; k < 2; k++) {
        v = k ? m->Eval(q) : m->Eval(p);
        for (int i = 0; i < 3; i++) SYM_EQ(v[i], B[i], "every form of asking gives the same field");
        struct magnetic_field_data &d = k ? m->EvalDerivatives(q) : m->EvalDerivatives(p);
        SYM_EQ(d.Babs, a, "every form of asking gives the same derivatives");
        for (int i = 0; i < 3; i++) {
            SYM_EQ(d.curlB[i], c[i], "every form of asking gives the same derivatives"); SYM_EQ(d.gradB[i], g[i], "every form of asking gives the same derivatives");
            for (int j = 0; j < 3; j++) SYM_EQ(d.J[i][j], J[i][j], "every form of asking gives the same derivatives");
        }
        if (!flux) continue;
        SYM_EQ(k ? m->EvalFlux(q) : m->EvalFlux(p), psi, "every form of asking gives the same flux");
        struct flux_diff *f = k ? m->EvalFluxDerivatives(q) : m->EvalFluxDerivatives(p);
        SYM_EQ(f->psi, psi, "every form of asking gives the same flux"); SYM_EQ(f->dpsi_dR, pr, "every form of asking gives the same flux"); SYM_EQ(f->dpsi_dZ, pz, "every form of asking gives the same flux");
    }
    for (int i = 0; i < 3; i++) SYM_ASSERT(q[i] == p[i] && p[i] == (i == 0 ? x : i == 1 ? y : z), "asking does not move the point");
}
