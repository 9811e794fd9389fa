"""Planted bugs (written from the property texts); plant.py turns them into seeded/."""
BUGS = []


def bug(id, property, edits, demo, needs, breaks, flags=''):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))


bug('timer-continue-offset', 'P24', [('src/General/Timer.cpp', '		offset += toc-tic;', '		offset = toc-tic;')], r'''
#include <cstdio>
#include <unistd.h>
#include <softlib/Timer.h>
int main() {
    Timer t; usleep(60000); t.Stop(); t.Continue(); usleep(1000); t.Stop(); t.Continue(); t.Stop();
    printf("%g us\n", (double)t.GetMicroseconds());
    return t.GetMicroseconds() < 60000;
}
''', 'a timer that is stopped and continued at least twice', 'time measured before the last-but-one stop is forgotten')

bug('controller-errold-rejected', 'P11', [('include/softlib/Integrator/RungeKutta.tcc',
    '''		scale = std::max(safe*pow(err, -alpha), minscale);
''', '''		errold = std::max(err, 1e-4);
		scale = std::max(safe*pow(errold, -alpha), minscale);
''')], r'''
#include <cstdio>
#include <cmath>
#include <sstream>
#include <string>
#include <vector>
#include <functional>
#include <iostream>
#define protected public
#define private public
#include <softlib/RKDP45.h>
struct Eq : public IntegratorEquation<1> {
    Vector<1>& Evaluate(const slibreal_t t, const Vector<1>& y, Vector<1>& d) { d[0] = 0; return d; }
};
int main() {
    RKDP45<1> a(1e-6); Eq e; a.SetEquation(&e);
    Vector<1> y; y[0] = 1; a.InitialValue(y);
    RKDP45<1> b(1e-6); b.SetEquation(&e); b.InitialValue(y);
    a.SetExponentBeta(.05); b.SetExponentBeta(.05);
    a.h = 1; a.UpdateTimestep(5.0); a.h = 1; a.UpdateTimestep(0.9);
    b.h = 1; b.previous_step_rejected = true; b.UpdateTimestep(0.9);
    printf("%g %g\n", (double)a.optimal_step, (double)b.optimal_step);
    return fabs(a.optimal_step - b.optimal_step) > 1e-12;
}
''', 'a rejected attempt followed by an accepted one', 'the error of a rejected attempt enters the next step size')

bug('history-grow-solution', 'P10', [('include/softlib/Integrator/Integrator.tcc',
    '''		ntsallocated += INTEGRATOR_ALLOC_SIZE;
''', '''		ntsallocated = (ntsallocated == 0) ? INTEGRATOR_ALLOC_SIZE : 2*ntsallocated;
''')], r'''
#include <cstdio>
#include <cmath>
#include <softlib/RKDP45.h>
struct Eq : public IntegratorEquation<1> {
    Vector<1>& Evaluate(const slibreal_t t, const Vector<1>& y, Vector<1>& d) { d[0] = 1; return d; }
};
int main() {
    struct I : public RKDP45<1> {
        I() : RKDP45<1>(1e-6) {}
        void Put(double t, double v) { Vector<1> y, d; y[0] = v; d[0] = -v; Integrator<1>::StoreSolution(t, y, d); }
    } a;
    Eq e; a.SetEquation(&e);
    for (int i = 0; i < 3500; i++) a.Put(i, 2*i);
    for (int i = 0; i < 3500; i++) if (a.TimeAt(i) != i || a.SolutionAt(i)[0] != 2*i || a.DerivativeAt(i)[0] != -2*i) return 1;
    return 0;
}
''', 'an integration that stores more than three allocation blocks (three growths)', 'the bookkeeping says twice the allocated room: later points are written outside the arrays', '-fsanitize=address')

bug('progress-remainder', 'P25', [('src/General/ProgressTracker.cpp', '    if (this->next < this->modlevel)', '    if (this->next <= this->modlevel)')], r'''
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <softlib/ProgressTracker.h>
int main() {
    for (int total = 1; total <= 12; total++) for (int n = 1; n <= total; n++) {
        char *buf; size_t len; FILE *old = stdout; stdout = open_memstream(&buf, &len);
        { ProgressTracker p(total, n, ProgressTracker::PROGRESS_LINES, false, false); for (int i = 1; i <= total; i++) p.PrintProgress(i); }
        fclose(stdout); stdout = old;
        int lines = 0; for (size_t i = 0; i < len; i++) lines += buf[i] == '\n';
        free(buf);
        if (lines != n) { printf("total %d: %d of %d reports\n", total, lines, n); return 1; }
    }
    return 0;
}
''', 'a step count that is not a multiple of the report count in a particular way', 'the last report is missing')

bug('connor-reinit', 'P21', [('src/DistributionFunction/ConnorHastieDistribution.cpp',
    '''    this->EHat   = EHat;
    this->Zeff   = Zeff;
''', '''    if (this->EHat == EHat && this->Zeff == Zeff && this->pMax == pMax)
        return;     // nothing to update
    this->EHat   = EHat;
    this->Zeff   = Zeff;
''')], r'''
#include <cstdio>
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
int main() {
    ConnorHastieDistribution a(10, 2, 20, 3), b(10, 2, 20, 5);
    a.Initialize(10, 2, 20, 5);
    printf("%g %g\n", (double)a.Eval(30, .5), (double)b.Eval(30, .5));
    return a.Eval(30, .5) != b.Eval(30, .5);
}
''', 'initialising twice with only the width of the cut-off changed', 'the old cut-off width stays')

bug('gauss-edge', 'P22', [('src/DistributionFunction/GaussianRadialProfile.cpp', 'if (rho >= this->rmax || rho < this->rmin)', 'if (rho >= this->rmax || r < this->rmin)')], r'''
#include <cstdio>
#include <softlib/DistributionFunction/GaussianRadialProfile.h>
int main() {
    GaussianRadialProfile g(1, 2, 1, 1.5, .3);
    return g.Eval(1.05, 0.1) != 0.0 || g.Eval(0.95, -0.1) == 0.0;
}
''', 'a non-zero drift shift near the inner edge', 'the inner edge is tested with the unshifted radius')

bug('png-rowsize', 'P26', [('src/ImageGenerator/ImageGeneratorPNG.cpp', 'png->pixels+(y*png->width + x)', 'png->pixels+(y*png->height + x)')], r'''
#include <cstdio>
#include <cstdlib>
#include <png.h>
#include <softlib/ImageGenerator/ImageColormap.h>
#include <softlib/ImageGenerator/ImageGeneratorPNG.h>
int main() {
    ImageColormap::scolor_t c[2] = {{0,0,0},{200,100,50}};
    ImageColormap m(c, 2, 0, 1);
    double img[6] = {0, .1, .2, .3, .4, .5};        // 3 x 2
    ImageGeneratorPNG g; g.SaveImage("a.png", img, 3, 2, &m);
    png_image p = {}; p.version = PNG_IMAGE_VERSION;
    if (!png_image_begin_read_from_file(&p, "a.png")) return 1;
    p.format = PNG_FORMAT_RGB;
    unsigned char *b = (unsigned char*)malloc(PNG_IMAGE_SIZE(p));
    if (!png_image_finish_read(&p, NULL, b, 0, NULL)) return 1;
    if (p.width != 3 || p.height != 2) return 1;
    for (int x = 0; x < 3; x++) for (int y = 0; y < 2; y++) {
        ImageColormap::scolor_t e = m.Eval(img[x*2+y]);
        if (b[(y*3+x)*3] != e.red) { printf("%d %d: %d\n", x, y, b[(y*3+x)*3]); return 1; }
    }
    return 0;
}
''', 'a picture that is not square', 'pixels of all but the first row are shifted')

bug('peaked-recentre-cut', 'P27', [('src/Integration/PeakedIntegration.cpp', 'return Evaluate(f, a, b, falloff, cutoff, maximum-delta, fmval);', 'return Evaluate(f, a, b, falloff, cutoff, maximum-delta, fmax);')], r'''
#include <cstdio>
#include <cmath>
#include <functional>
#include <softlib/Integration/PeakedIntegration.h>
int main() {
    std::function<double(double)> f = [](double x) { double v = 1 - fabs(x-2)/1.5; return v > 0 ? v : 0; };
    PeakedIntegration P; double a = P.Evaluate(f, 0., 6., .25, 1e-3, 2., f(2.)), b = P.Evaluate(f, 0., 6., .25, 1e-3, 2.5, f(2.5));
    printf("%g %g\n", a, b);
    return fabs(a-b) > 1e-6;
}
''', 'a peak estimate that lies to the right of the real peak', 'the centre value of the new peak is the old one')

bug('include-restores-length', 'P01', [('src/Configuration/Script/Lexer.cpp', '    this->cnfbufferlength = buflen;\n    this->cnfbufferpos = bufpos;\n    this->cnfbuffer = oldbuf;', '    this->cnfbuffer = oldbuf;\n    this->cnfbufferpos = bufpos;')], r'''
#include <fstream>
#include <softlib/Configuration/ConfigurationScript.h>
int main() {
    { std::ofstream o("i.cfg"); o << "a = 1;\n"; }
    ConfigurationScript c; c.RegisterBlockType("@B");
    ConfigBlock *r = c.FromString("<i.cfg>\nbb = 2;\ncc = 3;\n");
    return c.HasError() || !r->HasSetting("a") || !r->HasSetting("bb") || !r->HasSetting("cc") || (*r)["cc"] != "3";
}
''', 'an included file shorter than the rest of the document', 'the document is cut after the length of the included file')

bug('secondary-type-sticks', 'P01', [('src/Configuration/Script/Interpreter.cpp', '''                    } else
                        sndtype.clear();
''', '''                    }
''')], r'''
#include <softlib/Configuration/ConfigurationScript.h>
int main() {
    ConfigurationScript c; confblock_t t = c.RegisterBlockType("@B");
    ConfigBlock *r = c.FromString("@B one (x) { a = 1; }\n@B two { a = 2; }\n");
    return c.HasError() || r->GetConfigBlock(t, "one")->GetSecondaryType() != "x" || r->GetConfigBlock(t, "two")->GetSecondaryType() != "two";
}
''', 'a block without secondary type after one that has one', 'the secondary type of the earlier block is inherited')

bug('merge-drops-unknown', 'P03', [('src/Configuration/ConfigBlock.cpp', '''				if (unknown == nullptr) unknown = u;
				else {
					for (j = 0; j < u->size(); j++)
						unknown->push_back(u->at(j));
''', '''				if (unknown == nullptr) unknown = u;
				else {
					for (j = unknown->size(); j < u->size(); j++)
						unknown->push_back(u->at(j));
''')], r'''
#include <softlib/Configuration/ConfigurationScript.h>
int main() {
    ConfigurationScript a, b;
    a.RegisterBlockType("@B"); b.RegisterBlockType("@B");
    a.FromString("@B x { k = 1; }\n"); 
    ConfigBlock *ra = a.FromString("@B x { k = 1; }\n"), *rb = b.FromString("nope = 1;\n@B x { k = 2; other = 3; }\n");
    std::vector<std::string> *u = ra->Merge(rb);
    return u == nullptr || u->size() != 2;
}
''', 'unknown names both at the top and in a sub-block', 'unknown names of the sub-block are not reported')

bug('settingsfile-sign', 'P05', [('src/Configuration/SFile/SettingSFile.cpp', 'return (this->data.i64->at(index) >= 0);', 'return (this->data.i64->front() >= 0);')], r'''
#include <softlib/Configuration/ConfigurationSFile.h>
int main() {
    SettingSFile s(new std::vector<int64_t>{5, -3, 7});
    return !s.IsUnsignedInteger64(0) || s.IsUnsignedInteger64(1) || !s.IsUnsignedInteger32(2) || s.IsUnsignedInteger32(1);
}
''', 'a vector of 64-bit integers of mixed sign', 'the sign of the first element decides for all of them')

bug('type-of-file', 'P07', [('src/SFile/SFile.cpp', 'size_t i = filename.find_last_of(".");', 'size_t i = filename.find_first_of(".");')], r'''
#include <softlib/SFile.h>
int main() { return SFile::TypeOfFile("run.2/out.h5") != SFILE_TYPE_HDF5 || SFile::TypeOfFile("a.b.mat") != SFILE_TYPE_MATLAB || SFile::TypeOfFile("x.sdt") != SFILE_TYPE_SDT; }
''', 'a file name with more than one dot', 'the type is taken from the first dot')

bug('cross-end-on-wall', 'P13', [('src/MagneticField/MagneticField2D.cpp', 'if (s>=0 && s<=1 && t>=0 && t<=1) return true;', 'if (s>=0 && s<=1 && t>=0 && t<1) return true;')], r'''
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
template<class T> T *dup(const T *a, int n) { T *r = new T[n]; for (int i = 0; i < n; i++) r[i] = a[i]; return r; }
int main() {
    double R[4] = {1,2,3,4}, Z[4] = {-1,0,1,2}, b[16]; for (double &x : b) x = 1;
    double rw[5] = {1.5,3.5,3.5,1.5,1.5}, zw[5] = {-.5,-.5,1.5,1.5,-.5};
    MagneticFieldNumeric2D &m = *new MagneticFieldNumeric2D("n", "d", dup(R,4), dup(Z,4), 4, 4, dup(b,16), dup(b,16), dup(b,16), nullptr, 2.5, .5, nullptr, nullptr, 0, dup(rw,5), dup(zw,5), 5);
    return !m.CrossesDomain(2.5, 0., .5, 3.5, 0., .5) || m.CrossesDomain(2.5, 0., .5, 3., 0., .5);
}
''', 'a path that ends exactly on the wall', 'the path is taken to stay inside')

bug('bounds-remembered', 'P15', [('src/MagneticField/MagneticField2D.cpp', '    this->bounds.zmin = zmin;\n    this->bounds.zmax = zmax;', '    this->bounds.zmax = this->bounds.zmin = zmax;')], r'''
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
template<class T> T *dup(const T *a, int n) { T *r = new T[n]; for (int i = 0; i < n; i++) r[i] = a[i]; return r; }
int main() {
    double R[4] = {1,2,3,4}, Z[4] = {-1,0,1,2}, b[16]; for (double &x : b) x = 1;
    double rw[5] = {1.5,3.5,3.5,1.5,1.5}, zw[5] = {-.5,-.5,1.5,1.5,-.5};
    MagneticFieldNumeric2D &m = *new MagneticFieldNumeric2D("n", "d", dup(R,4), dup(Z,4), 4, 4, dup(b,16), dup(b,16), dup(b,16), nullptr, 2.5, .5, nullptr, nullptr, 0, dup(rw,5), dup(zw,5), 5);
    double a, c, d, e;
    for (int i = 0; i < 2; i++) { m.GetDomainBounds(a, c, d, e); if (a != 1.5 || c != 3.5 || d != -.5 || e != 1.5) return 1; }
    return 0;
}
''', 'asking twice for the extent', 'the lower end is the upper one from the second time on')

bug('clone-separatrix', 'P17', [('src/MagneticField/MagneticFieldNumeric2D.cpp', '        nzsep[i] = this->zsep[i];', '        nzsep[i] = this->rsep[i];')], r'''
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
template<class T> T *dup(const T *a, int n) { T *r = new T[n]; for (int i = 0; i < n; i++) r[i] = a[i]; return r; }
int main() {
    double R[4] = {1,2,3,4}, Z[4] = {-1,0,1,2}, b[16]; for (double &x : b) x = 1;
    double rw[5] = {1.5,3.5,3.5,1.5,1.5}, zw[5] = {-.5,-.5,1.5,1.5,-.5};
    MagneticFieldNumeric2D *m = new MagneticFieldNumeric2D("n", "d", dup(R,4), dup(Z,4), 4, 4, dup(b,16), dup(b,16), dup(b,16), nullptr, 2.5, .5, dup(rw,5), dup(zw,5), 5, nullptr, nullptr, 0);
    MagneticFieldNumeric2D *c = m->Clone();
    return c->CrossesDomain(2.5, 0., .5, 2.5, 0., 1.8) != m->CrossesDomain(2.5, 0., .5, 2.5, 0., 1.8) || c->CrossesDomain(2.5, 0., .5, 2.6, 0., .6) != m->CrossesDomain(2.5, 0., .5, 2.6, 0., .6);
}
''', 'cloning a field that has a separatrix', 'the separatrix of the clone is on the diagonal')

bug('flux-transposed', 'P18', [('src/MagneticField/MagneticFieldNumeric2D.cpp', '            _Psi = Transpose(_Psi, fs[0], fs[1]);', '            _Psi = Transpose(_Psi, fs[1], fs[0]);')], r'''
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
int main() {
    double R[5] = {1,2,3,4,5}, Z[4] = {-1,0,1,2}, w[10] = {1.5,3.5,3.5,1.5,1.5,-.5,-.5,1.5,1.5,-.5}, a[2] = {2.5,.5};
    double *b[5], *p[5], *ww[2] = {w, w+5};
    b[0] = new double[20]; p[0] = new double[20];
    for (int i = 0; i < 5; i++) { b[i] = b[0]+4*i; p[i] = p[0]+4*i; for (int j = 0; j < 4; j++) { b[i][j] = 1; p[i][j] = 10*i+j; } }
    SFile *f = SFile::Create("a.h5", SFILE_MODE_WRITE);
    f->WriteString("name", "n"); f->WriteString("desc", "d"); f->WriteList("maxis", a, 2); f->WriteList("r", R, 5); f->WriteList("z", Z, 4);
    f->WriteArray("Br", b, 5, 4); f->WriteArray("Bphi", b, 5, 4); f->WriteArray("Bz", b, 5, 4); f->WriteArray("Psi", p, 5, 4); f->WriteArray("wall", ww, 2, 5); f->Close();
    MagneticFieldNumeric2D m("a.h5");
    for (int i = 0; i < 5; i++) for (int j = 0; j < 4; j++) { double d = m.EvalFlux(R[i], 0, Z[j]) - (10*i+j); if (d > 1e-6 || d < -1e-6) return 1; }
    return 0;
}
''', 'a file with the radius along the rows and a flux', 'the flux is scrambled')

bug('numeric-decreasing', 'P20', [('src/DistributionFunction/NumericDistributionFunction.cpp', '''        slibreal_t t = this->rmin;
        this->rmin = this->rmax;
        this->rmax = t;
''', '''        this->rmin = this->rmax;
        this->rmax = r[nr/2];
''')], r'''
#include <cstdio>
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
int main() {
    double r[3] = {3,2,1}, p[3] = {1,2,3}, x[3] = {-1,0,1}, f[27];
    for (int i = 0; i < 27; i++) f[i] = 1 + i/9;
    NumericDistributionFunction d; d.Initialize(3, 3, 3, r, p, x, f, NumericDistributionFunction::INTERPOLATION_LINEAR); d.SetExtrapolationPermission(false);
    double a = d.Eval(2.5, 2, 0.); printf("%g\n", a);
    return a < 1.49 || a > 1.51;
}
''', 'radii in decreasing order and a point in the outer part', 'the radius is refused as outside the table')

bug('code-time-from-end', 'P23', [('src/DistributionFunction/CODEDistributionFunction.cpp', '        time = ntimes+time;\n', '        time = ntimes-1;\n')], r'''
#include <cstdio>
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
int main() {
    double y[3] = {0,1,2}, one = 1, two = 2, f[18], *py = y, *po = &one, *pt = &two, *pf[3] = {f, f+6, f+12};
    for (int i = 0; i < 18; i++) f[i] = 1 + i/6;
    SFile *s = SFile::Create("c.h5", SFILE_MODE_WRITE);
    s->WriteArray("y", &py, 1, 3); s->WriteArray("delta", &po, 1, 1); s->WriteArray("Nxi", &pt, 1, 1); s->WriteArray("f", pf, 3, 6); s->Close();
    CODEDistributionFunction a("c.h5", -2), b("c.h5", 1), c("c.h5", -1);
    printf("%g %g %g\n", a.Eval(.5, .5), b.Eval(.5, .5), c.Eval(.5, .5));
    return a.Eval(.5, .5) != b.Eval(.5, .5) || c.Eval(.5, .5) == b.Eval(.5, .5);
}
''', 'a negative time index other than -1', 'the last time is always taken')

bug('luke-radius-offset', 'P29', [('src/DistributionFunction/LUKEDistributionFunction.cpp', 'dat->f+radindex*(dat->np*dat->nxi)', 'dat->f+radindex*(dat->np*dat->np)')], r'''
#include <cstdio>
#include <softlib/DistributionFunction/LUKEDistributionFunction.h>
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
int main() {
    MagneticFieldAnalytical2D m(5, 3, 0, 1, MFAFS_CW, MFAFS_CW, MFASF_CONSTANT, 1, 0);
    double r[3] = {0,.5,1}, p[3] = {1,2,3}, x[4] = {-1,0,.5,1}, one = 1, f[36]; sfilesize_t d[3] = {3,4,3};
    for (int i = 0; i < 36; i++) f[i] = 1 + i/12;
    SFile *s = SFile::Create("l.h5", SFILE_MODE_WRITE);
    s->WriteList("xrhoG", r, 3); s->WriteList("pn", p, 3); s->WriteList("mhu", x, 4); s->WriteList("betath_ref", &one, 1); s->WriteMultiArray("f", f, 3, d); s->Close();
    NumericMomentumSpaceDistributionFunction *n = LUKEDistributionFunction::LoadMomentumSpace("l.h5", &m, false, 2, NumericDistributionFunction::INTERPOLATION_LINEAR);
    double v = n->Eval(1.5, -.5); printf("%g\n", v);
    return v < 2.999 || v > 3.001;
}
''', 'a radial index other than 0 and different numbers of momenta and pitches', 'the table is taken from the wrong place')

bug('dream-time-from-end', 'P29', [('src/DistributionFunction/DREAMDistributionFunction.cpp', 'TIMEINDEX = (nt+timestep)*nr*np*nxi;', 'TIMEINDEX = (nt-1)*nr*np*nxi;')], r'''
#include <cstdio>
#include <softlib/DistributionFunction/DREAMDistributionFunction.h>
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
int main() {
    MagneticFieldAnalytical2D m(5, 3, 0, 1, MFAFS_CW, MFAFS_CW, MFASF_CONSTANT, 1, 0);
    double t[3] = {0,1,2}, r[2] = {0.1,.5}, p[3] = {1,2,3}, x[3] = {-1,0,1}, f[54]; sfilesize_t d[4] = {3,2,3,3};
    for (int i = 0; i < 54; i++) f[i] = 1 + i/18;
    SFile *s = SFile::Create("d.h5", SFILE_MODE_WRITE);
    for (auto g : {"eqsys", "grid", "grid/hottail"}) s->CreateStruct(g);
    s->WriteList("grid/t", t, 3); s->WriteList("grid/r", r, 2); s->WriteList("grid/hottail/p1", p, 3); s->WriteList("grid/hottail/p2", x, 3); s->WriteMultiArray("eqsys/f_hot", f, 4, d); s->Close();
    DREAMDistributionFunction a("d.h5", &m, "", -2, false, NumericDistributionFunction::INTERPOLATION_LINEAR), b("d.h5", &m, "", 1, false, NumericDistributionFunction::INTERPOLATION_LINEAR);
    printf("%g %g\n", a.Eval(.3, 1.5, .5), b.Eval(.3, 1.5, .5));
    return a.Eval(.3, 1.5, .5) != b.Eval(.3, 1.5, .5) || b.Eval(.3, 1.5, .5) == 0;
}
''', 'a negative time step other than -1', 'the last time is always taken')

bug('luke-separatrix', 'P19', [('src/MagneticField/MagneticFieldLUKE.cpp', '	const unsigned int sepi = npsig-1;', '	const unsigned int sepi = min(npsig, ntsig)-1;')], r'''
#include <cstdio>
#include <cmath>
#include <softlib/MagneticField/MagneticFieldLUKE.h>
static void arr(SFile *f, const char *n, const double *v, int a, int b) { double **p = new double*[a]; p[0] = new double[a*b]; for (int i = 0; i < a; i++) { p[i] = p[0]+i*b; for (int j = 0; j < b; j++) p[i][j] = v[i*b+j]; } f->WriteArray(n, p, a, b); }
int main() {
    const int NP = 6, NT = 4;
    double x[4] = {-.5,.5,1,1.5}, y[4] = {-.5,.5,1,1.5}, pn[16], pg[NP], tg[NT] = {0,2,4,6.3}, v[NP*NT], px[NP*NT], py[NP*NT];
    for (int i = 0; i < 16; i++) pn[i] = i/15.;
    for (int i = 0; i < NP; i++) pg[i] = -i;
    for (int j = 0; j < NT; j++) for (int i = 0; i < NP; i++) { v[j*NP+i] = 1; px[j*NP+i] = (i+1)*cos(tg[j])/NP; py[j*NP+i] = (i+1)*sin(tg[j])/NP; }
    SFile *f = SFile::Create("e.h5", SFILE_MODE_WRITE);
    f->CreateStruct("equil"); f->CreateStruct("equil/eqdsk");
    f->WriteString("equil/id", "n"); f->WriteScalar("equil/Rp", 3); f->WriteScalar("equil/Zp", 0);
    f->WriteList("equil/eqdsk/x", x, 4); f->WriteList("equil/eqdsk/y", y, 4); arr(f, "equil/eqdsk/xypsin", pn, 4, 4); f->WriteScalar("equil/eqdsk/psia", 1);
    f->WriteList("equil/psi_apRp", pg, NP); f->WriteList("equil/theta", tg, NT);
    arr(f, "equil/ptBx", v, NT, NP); arr(f, "equil/ptBy", v, NT, NP); arr(f, "equil/ptBPHI", v, NT, NP); arr(f, "equil/ptx", px, NT, NP); arr(f, "equil/pty", py, NT, NP); f->Close();
    MagneticFieldLUKE m("e.h5");
    printf("%g\n", (double)m.GetMaxRadius());
    return fabs(m.GetMaxRadius()-4) > 1e-6;
}
''', 'more flux surfaces than poloidal angles', 'the separatrix is an inner flux surface')

bug('vector-shorter', 'P04', [('src/Configuration/Script/SettingScript.cpp', '    if (this->values.size() != n)', '    if (this->values.size() < n)')], r'''
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
int main() {
    SettingScript s("a", "1"); s.AppendValue("2"); s.AppendValue("3");
    return !(s.IsNumericVector(3) && !s.IsNumericVector(2) && !s.IsNumericVector(4));
}
''', 'a vector with more elements than expected', 'a vector of more elements than asked for passes as one of that length')

bug('wall-partly-outer', 'P14', [('src/MagneticField/MagneticField2D.cpp', 'if (!has_outer_wall && dr > magnetic_axis[0] && drp > magnetic_axis[0])',
    'if (!has_outer_wall && (dr > magnetic_axis[0] || drp > magnetic_axis[0]))')], r'''
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
int main() {
    MagneticFieldAnalytical2D mf(5, 2, 0, 1, MFAFS_CCW, MFAFS_CCW, MFASF_CONSTANT, 1, 0, "", "");
    double r[4] = {1, 3, 3, 1}, z[4] = {-1, -1, 1, 1};
    mf.SetDomain(r, z, 4);
    /* up, through the ceiling, which reaches from 1 to 3 */
    return !(mf.IntersectsDomain3D(1.5, 0, 0, 1.5, 0, 2, false) && mf.IntersectsDomain3D(2.5, 0, 0, 2.5, 0, 2, true) && !mf.IntersectsDomain3D(2, 0, 0, 5, 0, 0.1, false));
}
''', 'no outer wall, and a line of sight through a tile which reaches over the magnetic axis', 'tiles partly inside the magnetic axis are left out with the outer wall')

bug('flux-height-shear', 'P16', [('src/MagneticField/MagneticFieldAnalytical2D.cpp', '	flux_retval.dpsi_dZ = sigmaI * M_PI*B0*Z/q      * (2.0 - rdqdr / q);', '	flux_retval.dpsi_dZ = sigmaI * M_PI*B0*Z/q      * (2.0 - rdqdr);')], r'''
#include <cmath>
#include <cstdio>
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
int main() {
    MagneticFieldAnalytical2D mf(5, 2, 0, 1, MFAFS_CCW, MFAFS_CCW, MFASF_LINEAR, 2, 1, "", "");
    double h = 1e-5, d = (mf.EvalFlux(2.2, 0, 0.3 + h) - mf.EvalFlux(2.2, 0, 0.3 - h)) / (2 * h), g = mf.EvalFluxDerivatives(2.2, 0, 0.3)->dpsi_dZ;
    printf("%g %g\n", d, g);
    return fabs(d - g) > 1e-4 * fabs(d);
}
''', 'a safety factor which varies and is not one, away from the midplane', 'the vertical derivative of the flux is not that of the flux')

bug('multi-count-all', 'P06', [('src/SFile/SFile_HDF5.cpp', '	for (sfilesize_t i = 0; i < ndims; i++)\n		nel *= dims[i];', '	for (sfilesize_t i = 0; i < nndims; i++)\n		nel *= dims[i];')], r'''
#include <softlib/SFile.h>
int main() {
    double v[12]; sfilesize_t d[2] = {3, 4}, g[3] = {0, 0, 0}, n;
    for (int i = 0; i < 12; i++) v[i] = i;
    SFile *s = SFile::Create("a.h5", SFILE_MODE_WRITE); s->WriteMultiArray("x", v, 2, d); s->Close();
    s = SFile::Create("a.h5", SFILE_MODE_READ);
    double *l = s->GetMultiArray_linear("x", 3, n, g);
    if (!l || n != 2 || g[0] != 3 || g[1] != 4) return 1;
    for (int i = 0; i < 12; i++) if (l[i] != v[i]) return 1;
    return 0;
}
''', 'an array of fewer dimensions than the caller has room for', 'the buffer is sized by dimensions the array does not have', '-fsanitize=address')

bug('type-of-unsigned', 'P06', [('src/SFile/SFile_HDF5.cpp', '''        else if (type == PredType::STD_U64LE)
            return SFILE_DATA_UINT64;''', '''        else if (type == PredType::STD_U64LE)
            return SFILE_DATA_INT64;''')], r'''
#include <softlib/SFile.h>
int main() {
    uint64_t v[2] = {1, 18446744073709551615ull};
    SFile *s = SFile::Create("a.h5", SFILE_MODE_WRITE); s->WriteUInt64List("x", v, 2); s->Close();
    s = SFile::Create("a.h5", SFILE_MODE_READ);
    return s->GetDataType("x") != SFile::SFILE_DATA_UINT64;
}
''', 'a variable of unsigned 64 bit integers', 'unsigned values pass as signed ones')

bug('sdt-codes-positive', 'P07', [('src/SFile/SFile_SDT.load.cpp', '    while (ss >> c)\n        value += (char)c;', '    while (ss >> c) {\n        if (c > 0) value += (char)c;\n    }')], r'''
#include <softlib/SFile.h>
int main() {
    std::string t = "B\xc3\xa5gen";
    SFile *s = SFile::Create("a.sdt", SFILE_MODE_WRITE); s->WriteString("x", t); s->Close();
    s = SFile::Create("a.sdt", SFILE_MODE_READ);
    return s->GetString("x") != t;
}
''', 'a text with bytes beyond 127', 'letters outside ASCII are lost from texts')

bug('include-resets-line', 'P01', [('src/Configuration/Script/Lexer.cpp', '	this->instring = false;\n    this->ininclude = false;\n    this->prevws = false;', '	this->instring = false;\n    this->prevws = false;')], r'''
#include <fstream>
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
int main() {
    ConfigurationScript c;
    try { c.FromString("a = 1; <no"); } catch (...) {}
    ConfigBlock *b = c.FromString("x = 5;");
    return !(b->HasSetting("x") && b->GetSetting("x")->GetScalar() == 5);
}
''', 'a reader used again after a text which ends inside an include', 'the next text is taken as the name of a file')

bug('advance-past-end', 'P02', [('src/Configuration/Script/Interpreter.cpp', '	// If current token is EOF, we\'re already done\n	if (tokent() == CTKN_EOF) return false;\n\n', '')], r'''
#include <softlib/Configuration.h>
#include <softlib/Configuration/ConfigurationScript.h>
#include <softlib/SOFTLibException.h>
int main() {
    const char *t[] = {"a", "a =", "a = 1", "a = 1; b"};
    for (auto s : t) { ConfigurationScript c; try { c.FromString(s); } catch (SOFTLibException &) {} }
    return 0;
}
''', 'a text which ends in the middle of a statement', 'the reader runs past the last token', '-fsanitize=address')

bug('message-exact', 'P28', [('include/softlib/SOFTLibException.h', '} else if (n >= SOFTLIBEXCEPTION_BUFFER_SIZE) {', '} else if (n > SOFTLIBEXCEPTION_BUFFER_SIZE) {')], r'''
#include <string>
#include <cstdlib>
#include <cstdio>
#include <softlib/SOFTLibException.h>
int main() {
    for (int n = 990; n < 1010; n++) { std::string s(n, 'x'); SOFTLibException e("%s", s.c_str()); if (e.whats() != s) return 1; }
    return 0;
}
''', 'a message of exactly the size of the buffer', 'the last character of the message is lost')

bug('insert-first-limits', 'P20', [('src/DistributionFunction/NumericDistributionFunction.cpp', '        this->rmin = this->rmax = r;\n    else if (r > this->rmax)', '        this->rmin = r;\n    else if (r > this->rmax)')], r'''
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <softlib/SOFTLibException.h>
int main() {
    static double p[2] = {1, 2}, x[2] = {-1, 1}, f[4] = {1, 1, 1, 1};
    NumericDistributionFunction n;
    n.InsertMomentumSpaceDistribution(2, 2, -2, p, x, f, NumericDistributionFunction::INTERPOLATION_LINEAR);
    n.InsertMomentumSpaceDistribution(2, 2, -1, p, x, f, NumericDistributionFunction::INTERPOLATION_LINEAR);
    n.SetExtrapolationPermission(false);
    try { n.Eval(-0.5, 1.5, 0); } catch (SOFTLibException &) { return 0; }
    return 1;
}
''', 'radii which are inserted one by one and lie below zero', 'radii beyond the last table are not refused')
