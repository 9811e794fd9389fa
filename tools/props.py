"""The table of properties: properties.jsonl, MANIFEST.json and the DESIGN table come from here."""
P = []


def prop(id, title, statement, over, text, why, files, mech, bounds, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, bounds=bounds, note=note, na=na))


prop('P01', 'A well-formed script configuration reads back what was written',
     'For every well-formed script, each setting is found in the block where it was written with exactly the text written, whether bare '
     'or quoted, in the order written, whatever gaps, line breaks and comments (also on the last line) surround it. '
     'Blocks keep their type, name and secondary type, nest, and reopening a name follows the same rules; included files appear as if '
     'written in place, and reading from a file, from standard input or from a string gives the same configuration.',
     ['inputs', 'configurations'], 'every byte of names and values in the stated alphabets, every gap and comment text of the stated lengths',
     'The test reads one fixed document.',
     ['src/Configuration/Script/Lexer.cpp', 'src/Configuration/Script/Interpreter.cpp', 'src/Configuration/Script/ConfigurationScript.cpp', 'src/Configuration/Script/ConfigToken.cpp', 'src/Configuration/ConfigBlock.cpp'],
     [('tokens', 'src/Configuration/Script/Lexer.cpp'), ('grammar', 'src/Configuration/Script/Interpreter.cpp'), ('loading', 'src/Configuration/Script/ConfigurationScript.cpp')],
     'names and values of up to 3 symbolic bytes, up to 3 values, gaps of 2 symbolic bytes, two nesting levels, one level of inclusion')

prop('P02', 'No script text can crash or hang the configuration reader',
     'Whatever bytes a script holds, reading it ends, touches no memory it does not own, and either succeeds or is flagged as erroneous '
     'through the documented exceptions and the error flag. Malformed statements are flagged, and the statements before them keep their values.',
     ['inputs'], 'every byte sequence of the stated length, embedded in the stated surroundings',
     'Malformed input is not tested, and the failing inputs are rare byte combinations.',
     ['src/Configuration/Script/Lexer.cpp', 'src/Configuration/Script/Interpreter.cpp', 'src/Configuration/Script/ConfigurationScript.cpp'],
     [('tokens', 'src/Configuration/Script/Lexer.cpp'), ('grammar', 'src/Configuration/Script/Interpreter.cpp')],
     '3 (thorough 4) symbolic bytes after 6 different beginnings, 2 (thorough 3) with 3 different endings; malformed documents of 11 kinds')

prop('P03', 'The tree of configuration blocks keeps every block and setting apart',
     'For every history of adding settings and blocks, looking up a name gives the setting or block last added under it in that block and '
     'nothing when there is none, and a later assignment replaces the earlier one only. A copied or merged configuration equals its '
     'source, and changing either afterwards never changes the other. Settings report as unused exactly until they are asked for, and '
     'block types are told apart by their registered identities.',
     ['inputs', 'histories'], 'every name of the stated alphabet in every position of the history',
     'The test asks for existing settings of one fixed tree; merging, copying and the record of used settings are never asserted.',
     ['src/Configuration/ConfigBlock.cpp', 'src/Configuration/Configuration.cpp', 'src/Configuration/Setting.cpp', 'include/softlib/Configuration.h'],
     [('block tree', 'src/Configuration/ConfigBlock.cpp'), ('block types', 'src/Configuration/Configuration.cpp'), ('usage', 'src/Configuration/Setting.cpp')],
     'up to 4 settings and 3 blocks per history with symbolic one-byte names, two levels')

prop('P04', 'A setting is converted to a number, vector or truth value exactly or not at all',
     'A text setting that says it is an integer, unsigned integer, number, vector or truth value converts to exactly the value its text '
     'denotes, and conversion of a setting that does not say so is refused. Integers of every width are recognised only within the range '
     'of that width, numbers only without trailing text, and truth values only from the documented words in any capitalisation.',
     ['inputs'], 'every text of the stated length over all bytes, and every decimal integer within a few of each limit',
     'The test converts a dozen fixed texts.',
     ['src/Configuration/Script/SettingScript.cpp', 'src/Configuration/Setting.cpp'],
     [('recognition and conversion', 'src/Configuration/Script/SettingScript.cpp')],
     'texts of 3 (thorough 4) symbolic bytes; decimal texts around the 16, 32 and 64 bit limits; vectors of up to 3 elements')

prop('P05', 'A typed setting gives exactly its values, also after copying or overwriting',
     'A setting holding truth values, integers of any width, reals or texts gives back every value exactly and refuses access as a kind it '
     'is not; a value counts as 32 bit, unsigned or signed exactly when it fits. Copies and overwritten settings hold the same values, '
     'independently of the original, also when the values come from a script.',
     ['inputs', 'histories'], 'every pair of values of every kind',
     'No test touches these settings.',
     ['src/Configuration/SFile/SettingSFile.cpp', 'include/softlib/Configuration/ConfigurationSFile.h'],
     [('typed settings', 'src/Configuration/SFile/SettingSFile.cpp')],
     'two values of each of seven kinds; reals are not asked for their integer ranges')

prop('P06', 'Numbers written to a file are read back with the same shape and values',
     'For every file format, every array, list, scalar or image of reals or of 32 and 64 bit signed or unsigned integers reads back with the '
     'shape, order and exact values it was written with, as often as it is read, whatever the caller does with the returned copy. '
     'Rows and columns also read as lists and single elements as scalars; integers can be read whatever integer type they were written as; '
     'a variable of another shape than asked for is refused instead of being cut or read past its end.',
     ['inputs', 'configurations'], 'every finite element value; every format; every stated shape',
     'The tests write one fixed array per type and compare with a tolerance.',
     ['src/SFile/SFile.cpp', 'src/SFile/SFile_HDF5.cpp', 'src/SFile/SFile_MAT.HDF5.cpp', 'src/SFile/SFile_SDT.cpp', 'src/SFile/SFile_SDT.load.cpp', 'include/softlib/SFile.h'],
     [('generic readers', 'src/SFile/SFile.cpp'), ('HDF5', 'src/SFile/SFile_HDF5.cpp'), ('MAT', 'src/SFile/SFile_MAT.HDF5.cpp'), ('text', 'src/SFile/SFile_SDT.cpp')],
     'arrays up to 3x3 including empty ones, lists of up to 3 (thorough 5), 1-3 dimensions; text files: integers up to 2^53; the HDF5 library is a model (replays use the real one)')

prop('P07', 'Files keep names, texts and attributes apart, and refuse what they do not hold',
     'In every file format each variable, text and attribute is found under exactly the name it was written under, also inside structures; texts '
     'keep every byte, updating a file keeps what it held, and writing it anew does not. Missing files, variables and attributes are '
     'refused with the file exception; the extension decides the format, and MAT files carry the header and class marks MATLAB expects.',
     ['inputs', 'histories'], 'every text of the stated length, every name and extension of the stated alphabet, every date',
     'The tests only ask for what they have just written.',
     ['src/SFile/SFile.cpp', 'src/SFile/SFile_HDF5.cpp', 'src/SFile/SFile_MAT.HDF5.cpp', 'src/SFile/SFile_SDT.cpp', 'src/SFile/SFile_SDT.load.cpp'],
     [('generic', 'src/SFile/SFile.cpp'), ('HDF5', 'src/SFile/SFile_HDF5.cpp'), ('MAT', 'src/SFile/SFile_MAT.HDF5.cpp'), ('text', 'src/SFile/SFile_SDT.cpp')],
     'texts up to 3 (thorough 5) bytes other than zero, extensions up to 5 bytes, names with one symbolic byte; the HDF5 library is a model (replays use the real one)')

prop('P08', 'Text data files of any origin are read as specified or refused',
     'A file in the self-descriptive text format gives every matrix and text in it, whatever blanks separate the parts and whether or not '
     'the last line is ended. Any other byte sequence is refused by an exception or read, without touching memory outside the data, and '
     'never changes the variables before it.',
     ['inputs'], 'every byte sequence of the stated length in the stated surroundings; every blank, digit and sign at the stated places',
     'The test only reads files the library has written itself.',
     ['src/SFile/SFile_SDT.load.cpp', 'src/SFile/SFile_SDT.cpp'],
     [('reading', 'src/SFile/SFile_SDT.load.cpp')],
     '3 (thorough 4) symbolic bytes after 7 beginnings and before 2 endings; byte 1 excluded (used by the model of streams)')

prop('P09', 'Vector and matrix algebra is textbook algebra',
     'For every real operand, sums, differences, negation, scalar, dot, cross, vector-matrix and matrix-matrix products, norm, '
     'assignment, construction from arrays and copying of vectors and matrices give the textbook result in every element. '
     'Compound operators equal their binary forms also when an operand is the object itself, and operands are left unchanged.',
     ['inputs'], 'every real value of every element and scalar; sizes 1-5 (vectors) and up to 3x3 (matrices)',
     'No test covers the matrix class at all; the vector class is only used inside other tests with a few numbers.',
     ['include/softlib/Vector.h', 'include/softlib/Matrix.h', 'include/softlib/General'],
     [('element-wise operators', 'include/softlib/General/Vector.tcc'), ('matrix operators', 'include/softlib/General/Matrix.tcc')],
     'vectors of 1, 2, 3, 5 elements; matrices 2x2, 2x3, 3x1, 3x3; elements are reals (rounding outside)')

prop('P10', 'An integration step is the Dormand-Prince step and history is kept',
     'For every right-hand side, time, state and step size, one attempt evaluates the seven Dormand-Prince stages at the published '
     'times and states, advances to the fifth-order solution and estimates the error by the scaled difference to the fourth-order one. '
     'Each completed step stores exactly one new point whose time, solution and derivative belong together and continue the previous '
     'point, earlier points never change (also when the history outgrows its first allocation), and a new initial value starts over at time zero.',
     ['inputs', 'histories'], 'every equation (its returned values are free), every state, time and step size; histories of 1-3 steps; history sizes up to 3002',
     'The test integrates two fixed equations and compares a handful of points with a loose tolerance.',
     ['include/softlib/RKDP45.h', 'include/softlib/Integrator/RKDP45.tcc', 'include/softlib/Integrator/RungeKutta.tcc', 'include/softlib/Integrator/Integrator.tcc', 'include/softlib/GeneralEquation.h'],
     [('stages and error', 'include/softlib/Integrator/RKDP45.tcc'), ('step and storage', 'include/softlib/Integrator/RungeKutta.tcc'), ('history', 'include/softlib/Integrator/Integrator.tcc')],
     '1 and 2 dimensions; 2 (thorough 3) steps in one dimension, 1 in two; stored history 3002 points; polynomial and linear equations for the order')

prop('P11', 'The step-size controller accepts and rejects by the error estimate',
     'An attempt is accepted exactly when its scaled error is at most one; a rejected attempt is repeated from the same point with a '
     'smaller step, and a not-a-number error shrinks the step tenfold. The next step size is the previous one times the safety factor and '
     'the error powers, limited by the minimum and maximum scale factors, and never grows right after a rejection. '
     'The safety factor, exponents and limits set by the user are the ones used.',
     ['inputs', 'histories'], 'every sequence of error estimates (including NaN) of the stated length, every safety factor and limit in the stated ranges',
     'The test only sees the errors its two equations produce; rejections, NaN and the clamps are never asserted.',
     ['include/softlib/RungeKutta.h', 'include/softlib/Integrator/RungeKutta.tcc'],
     [('controller', 'include/softlib/Integrator/RungeKutta.tcc')],
     '2 (thorough 3) attempts; one dimension; pow is an uninterpreted function; safety 0.5-1, limits 0.1-0.5 and 2-20')

prop('P12', 'Dense output interpolates between the stored points',
     'Between two stored points dense output is the fourth-order Dormand-Prince interpolant of that step, it passes through the stored '
     'solutions, and it is exact for solutions that are polynomials of degree four. Times may be asked for in any order; times outside the '
     'integrated interval, or asking before a step was taken or with dense output switched off, are refused by an exception, and '
     'equidistant output includes both end points.',
     ['inputs', 'histories'], 'every equation, every step size, every requested time; two (thorough three) steps',
     'The test asks for increasing times inside the interval of two fixed runs.',
     ['include/softlib/Integrator/RKDP45.tcc', 'include/softlib/Integrator/Integrator.tcc'],
     [('coefficients and interpolation', 'include/softlib/Integrator/RKDP45.tcc'), ('equidistant times', 'include/softlib/Integrator/Integrator.tcc')],
     '2 (thorough 3) steps in one dimension, 1 in two; increasing non-negative solutions; up to 4 equidistant times; histories up to 3002 points')

prop('P13', 'A path crosses the domain exactly if it meets the wall contour',
     'For every wall contour and every two points, the path between them (in the plane of major radius and height) is reported to cross the '
     'domain exactly if it shares a point with some tile of the contour, the tile which closes it included. '
     'A single point is judged by the path from the magnetic axis, only the distance from the symmetry axis matters, and all forms of the '
     'question give the same answer.',
     ['inputs'], 'every end point (and every start for single tiles), and every position of one corner of a triangle',
     'The test follows a few paths through one contour; parallel and touching paths are never met.',
     ['src/MagneticField/MagneticField2D.cpp', 'include/softlib/MagneticField/MagneticField2D.h'],
     [('crossing of a path with the contour', 'src/MagneticField/MagneticField2D.cpp')],
     'single tiles with both path ends free; three contours of 3 to 6 points with a free end; triangles with a free corner; real arithmetic')

prop('P14', 'A line of sight is blocked exactly by the wall in its way',
     'For every wall, the straight line between two points in space is reported to intersect it exactly if it meets the surface that '
     'some tile sweeps around the symmetry axis, between the ends of the line and of the tile. '
     'Leaving out the outer wall ignores exactly the tiles beyond the magnetic axis, and all forms of the question give the same answer.',
     ['inputs'], 'every position of one end of the line along given lines, in given planes or at any height',
     'The test has a few lines against one contour.',
     ['src/MagneticField/MagneticField2D.cpp'],
     [('line of sight against a tile', 'src/MagneticField/MagneticField2D.cpp')],
     'four kinds of tiles (upright, flat, slanted both ways), six pairs of heights, one or two free coordinates of one end; three contours; lines within the plane of a flat tile are left out')

prop('P15', 'The extent of the domain is the extent of its contour',
     'For every contour, the least and greatest radius at the height of the magnetic axis, the least and greatest height at a given '
     'radius and the bounding box are those of the closed contour; a contour which does not reach the axis height, or a radius outside it, '
     'is refused by an exception. A new domain replaces all results of the earlier one.',
     ['inputs', 'histories'], 'every contour of the stated number of points, every level',
     'One convex contour is tested, on which the first two crossings are the right ones.',
     ['src/MagneticField/MagneticField2D.cpp'],
     [('extent at a level', 'src/MagneticField/MagneticField2D.cpp'), ('bounding box', 'src/MagneticField/MagneticField2D.cpp')],
     'any contour of 3 (thorough 4) points, and three given ones with any level')

prop('P16', 'The analytic magnetic field and its derivatives follow from its safety factor',
     'For every strength, axis height, direction of field and current, safety-factor profile and point, the field, flux and safety factor '
     'equal their formulas, and the returned Jacobian, curl, field strength, its gradient and the flux derivatives are the derivatives of '
     'that field and flux, also on the axis, and the field has no divergence. '
     'Copies are the same field independently, the wall is the circle of the minor radius, and a table made from the field has its values '
     'at the nodes.',
     ['inputs'], 'every real point, strength, axis height and profile parameters, all sign combinations and profiles',
     'The test compares a few thousand sample points with reference data, which share the errors of the code.',
     ['src/MagneticField/MagneticFieldAnalytical2D.cpp', 'src/MagneticField/MagneticFieldAnalytical2D.q.cpp', 'include/softlib/MagneticField/MagneticFieldAnalytical2D.h'],
     [('field and derivatives', 'src/MagneticField/MagneticFieldAnalytical2D.cpp'), ('safety factor', 'src/MagneticField/MagneticFieldAnalytical2D.q.cpp')],
     'major radius 3 and minor radius 2; current profiles with exponents 1, 2, 3 and infinity, finite ones without the Jacobian; exp and its derivative as functions; tables of 3 by 3 and 3 by 4 nodes')

prop('P17', 'A tabulated magnetic field is that of its table, also outside it',
     'For every table of field components and flux and every point, the field and flux equal the interpolated table inside the grid and '
     'the value at the nearest grid point, turned to the same toroidal direction, outside it; the returned Jacobian, curl, strength and gradient belong to that field. '
     'Copies have the same data, names, axis, wall and separatrix independently of the original; without flux data asking for the flux, and without '
     'both wall and separatrix building the field, is refused by an exception.',
     ['inputs', 'configurations'], 'every bilinear table and every real point (three toroidal directions outside the grid)',
     'The test compares points inside one table with reference data; nothing is evaluated outside the grid or copied.',
     ['src/MagneticField/MagneticFieldNumeric2D.cpp', 'include/softlib/MagneticField/MagneticFieldNumeric2D.h'],
     [('interpolation', 'src/MagneticField/MagneticFieldNumeric2D.cpp'), ('copies', 'src/MagneticField/MagneticFieldNumeric2D.cpp')],
     'one uneven grid of 3 by 4 nodes, data bilinear in radius and height with free coefficients; GSL interpolation by a model exact for such data; Jacobian where the vertical component is the largest and at given points')

prop('P18', 'Tabulated magnetic fields survive their files, and malformed files are refused',
     'A tabulated field saved to a file reads back with the same table, flux, axis, wall, separatrix and names, whichever of the optional parts it has. '
     'A file of other origin is read in either orientation of its arrays, in every format; missing variables, arrays of the '
     'wrong shape, check values which differ from the table, or neither wall nor separatrix are refused by an exception, without access outside the arrays.',
     ['inputs', 'configurations', 'faults'], 'every table value, every optional part, orientation and format, every deviation of a check value',
     'The tests read one well-formed file and save none.',
     ['src/MagneticField/MagneticFieldNumeric2D.cpp'],
     [('reading and saving', 'src/MagneticField/MagneticFieldNumeric2D.cpp')],
     'one grid of 3 by 4 nodes, contours of 4 and 5 points; saving to HDF5 and MAT only, as SDT holds no such arrays; HDF5 by an in-memory model')

prop('P19', 'LUKE equilibria become the field they describe',
     'An equilibrium file yields a magnetic field with its name, axis and flux, whose value at every grid node is that of the equilibrium at the flux and '
     'poloidal angle of the node, and whose separatrix is the last flux surface. '
     'The wall is that of the wall file, if one is given, in either orientation; equilibria with missing variables or arrays of the wrong '
     'shape are refused by an exception.',
     ['inputs', 'configurations', 'faults'], 'every field (bilinear in flux and angle), flux scale and two free flux values, all ways of naming the files',
     'There is no test of these files.',
     ['src/MagneticField/MagneticFieldLUKE.cpp'],
     [('reading', 'src/MagneticField/MagneticFieldLUKE.cpp')],
     'one equilibrium of 3 by 4 nodes with 3 surfaces and 5 angles; HDF5 and MAT; GSL by a model exact for bilinear data')

prop('P20', 'Tabulated distributions interpolate their tables in momentum, pitch and radius',
     'For every table and point, a tabulated distribution equals the interpolation of its table (of its logarithm, where asked) in momentum and pitch, is zero '
     'outside it, and is linear in the radius between tables and beyond them, or refuses radii outside when extrapolation is not permitted. '
     'Radii may be given increasing or decreasing, or one after another in any order; copies are the same distribution, and reversing the pitch mirrors it. '
     'Grids which are not ordered, and negative values where a logarithm is taken of a single table, are refused by an exception.',
     ['inputs', 'configurations', 'histories'], 'every table value, momentum, pitch, radius, drift shift and radial grid',
     'The test evaluates one momentum table at random points; tables with radius are tested by one file, without extrapolation.',
     ['src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp', 'src/DistributionFunction/NumericDistributionFunction.cpp'],
     [('momentum and pitch', 'src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp'), ('radius', 'src/DistributionFunction/NumericDistributionFunction.cpp')],
     'tables of 3 by 3 nodes on two grids, and 2 by 2 nodes at 1 to 3 free radii; cubic interpolation of bilinear data and at nodes; GSL by a model exact for these; exp and log as functions')

prop('P21', 'Analytic momentum distributions follow their formulas',
     'For every parameter set and momentum, the avalanche, Connor-Hastie, exponential-pitch and unit distributions equal their published '
     'formulas, are even in the pitch, and do not depend on radius. Initialising again replaces every parameter, a clone evaluates '
     'like the original, and a product of profile and momentum distribution is the product of their values.',
     ['inputs', 'configurations'], 'every positive parameter, momentum and pitch in [-1,1]',
     'The test of analytic distributions is not in the reliable set and samples a few values.',
     ['src/DistributionFunction/AnalyticalAvalanche.cpp', 'src/DistributionFunction/ConnorHastieDistribution.cpp', 'src/DistributionFunction/ExponentialPitch.cpp', 'src/DistributionFunction/UnitDistributionFunction.cpp', 'src/DistributionFunction/RadialDistributionFunction.cpp', 'src/DistributionFunction/MomentumSpaceDistributionFunction.cpp'],
     [('evaluation', 'src/DistributionFunction/AnalyticalAvalanche.cpp'), ('evaluation', 'src/DistributionFunction/ConnorHastieDistribution.cpp'), ('product', 'src/DistributionFunction/RadialDistributionFunction.cpp')],
     'reals instead of doubles; exp uninterpreted with its basic laws; momenta and parameters positive')

prop('P22', 'Radial profiles follow their formulas inside and vanish outside',
     'For every radius, drift shift and valid parameters, the linear, power, Gaussian, Bessel and uniform radial profiles equal their '
     'formula where the shifted radius lies in [rmin, rmax) and zero elsewhere. Invalid intervals or shapes are refused by an '
     'exception, and clones evaluate like the original.',
     ['inputs', 'configurations'], 'every radius, drift shift, interval and shape parameter',
     'No reliable test evaluates a radial profile.',
     ['src/DistributionFunction/LinearRadialProfile.cpp', 'src/DistributionFunction/PowerRadialProfile.cpp', 'src/DistributionFunction/GaussianRadialProfile.cpp', 'src/DistributionFunction/BesselRadialProfile.cpp'],
     [('evaluation and validation', 'src/DistributionFunction/GaussianRadialProfile.cpp')],
     'reals instead of doubles; exp, pow and J0 uninterpreted; power exponents 1, 2, 3 and any')

prop('P23', 'Legendre-mode distributions are the sum of their modes, at every radius',
     'For every set of modes, momentum and pitch, such a distribution equals the sum of its interpolated modes times the Legendre polynomials of the '
     'reversed pitch, or zero where that is negative or the momentum is outside the grid; tables made from it have its values at their nodes and leave it unchanged. '
     'Files yield the chosen time step (counted from the end if negative) with momenta and normalisation applied, and distributions at several radii are linear between and beyond them; '
     'missing or misshaped variables, unordered grids and time steps not in the file are refused by an exception.',
     ['inputs', 'configurations', 'histories', 'faults'], 'every mode value, momentum, pitch, radius and drift shift, every time step and place in the file',
     'The test of these files cannot open its data file here, and nothing tests several radii.',
     ['src/DistributionFunction/CODEDistributionFunction.cpp', 'src/DistributionFunction/GOCODEDistributionFunction.cpp'],
     [('sum of modes', 'src/DistributionFunction/CODEDistributionFunction.cpp'), ('radius', 'src/DistributionFunction/GOCODEDistributionFunction.cpp')],
     'up to 5 modes, 3 momenta and 3 radii, two time steps; linear interpolation; HDF5 by an in-memory model and GSL by an exact one')

prop('P24', 'A timer measures exactly the time it was running',
     'After any sequence of stopping a running timer, continuing a stopped one, resetting and reading, the elapsed time equals the clock time spent '
     'running since the last reset, is never negative, and does not move while stopped. Its days, hours, minutes, seconds, milliseconds and '
     'microseconds are within their ranges and add up to it, and its text lists exactly the positive components (and always the microseconds).',
     ['inputs', 'histories'], 'every non-decreasing sequence of clock readings, every history of the stated length',
     'There is no test of the timer; real clocks cannot be driven to days or to chosen readings.',
     ['src/General/Timer.cpp', 'include/softlib/Timer.h'],
     [('accumulation', 'src/General/Timer.cpp')],
     'histories of 5 (thorough 7) operations; clock readings up to 10^18 ns')

prop('P25', 'Progress reports come on schedule, numbered once each',
     'For every number of steps and of reports not exceeding it, reporting steps in order prints exactly the requested number of lines, '
     'numbered in order, evenly spread and the last one at the last step; with two threads no number is printed twice or skipped. '
     'Passed times, estimates and the printed durations follow the clock: the units of a printed duration add up to it at the printed resolution.',
     ['inputs', 'schedules', 'histories'], 'every step and report count up to the bound, every clock reading, every preemption at the edges of the critical section',
     'There is no test of the progress tracker.',
     ['src/General/ProgressTracker.cpp', 'include/softlib/ProgressTracker.h'],
     [('schedule', 'src/General/ProgressTracker.cpp'), ('durations', 'src/General/ProgressTracker.cpp')],
     'up to 6 (thorough 10) steps; two threads with up to two complete calls inserted at the edges of the critical section; durations up to 4*10^8 ms')

prop('P26', 'Images show every value in its colour at its place',
     'A colour map returns the linear interpolation (rounded down) of its table over its value range and the end colours outside, for every value including '
     'infinities, without undefined behaviour. A written PPM or PNG picture has the requested size, and the pixel in column x and row y has the colour of '
     'element (x, y) of the array. Unknown formats and colour maps are refused by an exception.',
     ['inputs', 'configurations'], 'every value, every range start, every table; every image up to the stated size',
     'There is no test of image output.',
     ['include/softlib/ImageGenerator/ImageColormap.h', 'src/ImageGenerator/ImageGenerator.cpp', 'src/ImageGenerator/ImageGeneratorPNG.cpp', 'src/ImageGenerator/ImageGeneratorPPM.cpp'],
     [('interpolation', 'include/softlib/ImageGenerator/ImageColormap.h'), ('pixel order', 'src/ImageGenerator/ImageGeneratorPPM.cpp'), ('pixel order', 'src/ImageGenerator/ImageGeneratorPNG.cpp')],
     'tables up to 3 (thorough 6) colours, ranges of width 1, 2.5, 0.125 for free values, 5 positions for free tables; images up to 2x2 (thorough 3x3); libpng replaced by a recorder')

prop('P27', 'Peaked integration sums out from the peak and stays in its limits',
     'The integral equals the trapezoidal sum with the given step outwards from the peak, ending where both sides fall to the cutoff fraction '
     'of the peak, and the integrand is never evaluated outside the limits. A larger value met on the way becomes the new centre; a zero step is '
     'refused by an exception. The search for the maximum of a single-peaked function on [0, 2 pi] finds it to the requested tolerance.',
     ['inputs'], 'every integrand value, limit, step and cutoff up to the stated number of steps; every peak position for triangular functions',
     'There is no test of the integration.',
     ['src/Integration/PeakedIntegration.cpp'],
     [('sum', 'src/Integration/PeakedIntegration.cpp'), ('golden section', 'src/Integration/PeakedIntegration.cpp')],
     'at most 3 (thorough 5) steps each way; tolerance 0.5 (thorough 0.1) for the maximum of triangular functions')

prop('P28', 'Error messages arrive whole',
     'An exception carries its formatted message completely and unchanged whatever its length, through every way of reading it '
     'and through copying, and leaves no memory behind. Plain messages are kept verbatim even when they contain percent signs, and configuration errors are '
     'prefixed with file, line and column.',
     ['inputs'], 'every message content at the stated positions, lengths around the internal buffer size',
     'No test looks at an error message; the buffer limit is at 1000 characters.',
     ['src/General/SOFTLibException.cpp', 'include/softlib/SOFTLibException.h', 'include/softlib/ConfigurationException.h', 'include/softlib/SFileException.h'],
     [('formatting', 'src/General/SOFTLibException.cpp')],
     'lengths 0, 1, 7, 500, 997-1002, 1500, 2600; bytes free at the start, around the buffer size and at the end')

prop('P29', 'Distribution files yield the tables they hold, and malformed ones are refused',
     'A distribution file of the SOFT (old or new), LUKE or DREAM kind yields, for the chosen time step, quantity or radius, a distribution with the values of the file '
     'at its nodes, with radii moved to the magnetic axis (if a field is given), momenta in the stated units, and linear interpolation in the radius. '
     'Files with missing or misshaped variables, unordered radii, unknown types, names or units, failing check values, or a time step or radius which they do not hold '
     'are refused by an exception, without access outside the arrays or freeing what was not allocated.',
     ['inputs', 'configurations', 'faults'], 'every table value, every way of asking, every kind of malformation listed',
     'Only one of the files is read by a working test, at random points between nodes.',
     ['src/DistributionFunction/SOFTDistributionFunction.cpp', 'src/DistributionFunction/LUKEDistributionFunction.cpp', 'src/DistributionFunction/DREAMDistributionFunction.cpp', 'src/DistributionFunction/deprSOFTDistributionFunction.cpp'],
     [('SOFT', 'src/DistributionFunction/SOFTDistributionFunction.cpp'), ('LUKE', 'src/DistributionFunction/LUKEDistributionFunction.cpp'), ('DREAM', 'src/DistributionFunction/DREAMDistributionFunction.cpp')],
     'up to 3 radii (DREAM: 2, with 2 time steps), 3 momenta, 3 or 4 pitches; pairs of the options; HDF5 and MAT by an in-memory model, GSL by a model exact at nodes')
