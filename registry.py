import os
HERE = os.path.dirname(os.path.abspath(__file__))

CHECKS = {
    'P01': dict(
        stages=[dict(driver='p01_calendar.cpp', flavour='plain')],
        rule='one evaluation = one (calendar, day) or (calendar, year) put through the real conversion and an '
             'independent calendar; distinct by (calendar, day or year) and non-trivial when the calendar is defined there',
        assumptions=['astronomical Persian leap years and the packed Chinese table are compared with copies frozen from the base commit'],
    ),
    'P02': dict(
        stages=[dict(driver='p02_parse.cpp', flavour='plain')],
        rule='one evaluation = one generated date/time text parsed by the real code (both precisions) and compared with the '
             'instant it was generated from; distinct by (text, format flags)',
    ),
    'P03': dict(
        stages=[dict(driver='p03_format.cpp', flavour='plain'), dict(driver='p03_format.cpp', flavour='asan')],
        rule='one evaluation = one (instant, format flags) rendered by the real code and read back by an independent reader, or one '
             'split into fields; distinct by (text, flags)',
    ),
    'P04': dict(
        stages=[dict(driver='p04_deltat.cpp', flavour='plain')],
        rule='one evaluation = one instant queried through td_minus_ut/td_minus_utc/tdb_minus_utc (or one Earth-orientation record) in a '
             'history of overrides, cut-offs and file loads; distinct by (instant, override text)',
        assumptions=['Delta-T values 1620-2024 and the TDB terms are compared with a frozen copy of the published tables'],
    ),
    'P05': dict(
        stages=[dict(driver='p05_easter.cpp', flavour='plain', extra=['easter.cpp'], tools=['easter=easter.cpp -DTEST_CODE'])],
        rule='one evaluation = Easter of one year (or one list printed by the program) compared with an epact-table computus; distinct by (calendar, year)',
    ),
    'P06': dict(
        stages=[dict(driver='p06_mars.cpp', flavour='plain', extra=['marstime.cpp'], tools=['marstime=marstime.cpp -DTEST_PROGRAM'])],
        rule='one evaluation = one instant through the conversions (or one program report), compared with the published relations in long double; distinct by instant',
    ),
    'P07': dict(
        stages=[dict(driver='p07_desig.cpp', flavour='plain'), dict(driver='p07_desig.cpp', flavour='asan')],
        rule='one evaluation = one designation packed, unpacked (alone, in a record, unaligned) and compared with an independent packer, or one '
             'damaged text/packed form; distinct by packed form or text',
    ),
    'P08': dict(
        stages=[dict(driver='p08_mutant.cpp', flavour='plain'), dict(driver='p08_mutant.cpp', flavour='asan')],
        rule='one evaluation = one value encoded/decoded in one width, or one catalogue name variant; distinct by (width, value) or name',
        assumptions=['catalogue names and codes are a frozen copy of the published list'],
    ),
    'P09': dict(
        stages=[dict(driver='p09_records.cpp', flavour='plain'), dict(driver='p09_records.cpp', flavour='asan')],
        rule='one evaluation = one generated 80-column record (or a damaged one) read by the real code and compared in long double with the '
             'values it was generated from; distinct by field text',
    ),
    'P10': dict(
        stages=[dict(driver='p10_angles.cpp', flavour='plain'), dict(driver='p10_angles.cpp', flavour='asan')],
        rule='one evaluation = one (angle, format code) written by the real code, read back by a strict independent reader and by the library\'s own '
             'readers; distinct by (text, code)',
    ),
    'P12': dict(
        stages=[dict(driver='p12_sites.cpp', flavour='plain'), dict(driver='p12_sites.cpp', flavour='asan')],
        rule='one evaluation = one site text or (latitude, altitude, body) put through the real readers and conversions and compared with exact '
             'long-double geodesy / the generating values; distinct by text or point',
        assumptions=['body radii are a frozen copy of the published constants'],
    ),
    'P40': dict(
        stages=[dict(driver='p40_colors.cpp', flavour=f, mode=m, extra=['colors.cpp', 'colors2.cpp'], tools=['colors=colors.cpp -DSIMPLE_TEST_PROGRAM', 'colors2=colors2.cpp -DTEST_FUNC']) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one colour index through every conversion of the real code (or one run of a program), compared with the published relation '
             'in long double; distinct by the index',
        assumptions=['the coefficients and table rows are a frozen copy of the published ones as the pinned tree carries them'],
    ),
    'P41': dict(
        stages=[dict(driver='p41_demos.cpp', flavour=f, mode=m, extra=['solseqn.cpp', 'gust86.cpp', 'htc20b.cpp', 'obliqui2.cpp', 'lun_tran.cpp', 'riseset3.cpp', 'refract.cpp', 'refract4.cpp'],
                     tools=['jpl_url=jpl_url.c', 'landgraf=landgraf.cpp', 'superga2=superga2.cpp', 'persian=persian.cpp solseqn.cpp', 'uranus1=uranus1.cpp gust86.cpp', 'htc20b=htc20b.cpp -DTEST_MAIN',
                            'ssattest=ssattest.cpp', 'jsattest=jsattest.cpp', 'lun_test=lun_test.cpp lun_tran.cpp riseset3.cpp', 'get_test=get_test.cpp', 'test_des=test_des.cpp', 'testprec=testprec.cpp',
                            'prectes2=prectes2.cpp', 'prectest=prectest.cpp', 'oblitest=oblitest.cpp obliqui2.cpp', 'test_ref=test_ref.cpp refract.cpp refract4.cpp', 'cosptest=cosptest.cpp',
                            'moidtest=moidtest.cpp', 'chinese=chinese.cpp']) for f, m in (('plain', ''), ('asan', 'san'))]
             + [dict(driver='p41b_small.cpp', flavour=f, mode=m, tools=['desigcgi=desigcgi.c', 'll_test=ll_test.c', 'mpcorb2=mpcorb2.cpp', 'disttest=disttest.cpp', 'utc_algo=utc_algo.cpp', 'adestags=adestags.c'])
                for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one run of a demonstration or test program on generated arguments and files, every number it prints compared with the library '
             'function it demonstrates or with an independent formula; distinct by command line',
        assumptions=['the planetary series file is a synthetic one of realistic form; library values are judged by the properties of the functions themselves'],
    ),
    'P42': dict(
        stages=[dict(driver='p42_integrat.cpp', flavour=f, mode=m, tools=['integrat=integrat.cpp -I%s/harness/stub' % HERE]) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one run of integrat on a generated element file; each element of each line compared with an order-10 extrapolation of the '
             'full equations of motion; distinct by command line and file',
        assumptions=['the JPL ephemeris library is a stand-in: ten bodies on fixed ellipses (the real library is not in this repository)', 'masses are a frozen copy of those the program lists'],
    ),
    'P43': dict(
        stages=[dict(driver='p43_conjunct.cpp', flavour=f, mode=m, tools=['conjunct=conjunct.cpp -I%s/harness/stub' % HERE]) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one run of conjunct, its list matched both ways with the closest approaches found by a fine scan of the same sky; distinct by command line',
        assumptions=['the JPL ephemeris library and conio.h are stand-ins (neither is in this repository)'],
    ),
    'P13': dict(
        stages=[dict(driver='p13_varstars.cpp', flavour='plain'), dict(driver='p13_varstars.cpp', flavour='asan')],
        rule='one evaluation = one variable number or text through the real functions against the enumerated traditional sequence; distinct by text',
    ),
    'P28': dict(
        stages=[dict(driver='p28_numeric.cpp', flavour='plain', extra=['spline.cpp']), dict(driver='p28_numeric.cpp', flavour='asan', extra=['spline.cpp'])],
        rule='one evaluation = one whole minimisation run, every step monitored online (point inside bracket, bracket nested, best point kept), or '
             'one interpolation against the exact polynomial; distinct by (function, start) or (x, table)',
    ),
    'P29': dict(
        stages=[dict(driver='p29_strings.cpp', flavour='plain', ldflags='-Wl,--wrap=exit,--wrap=abort'), dict(driver='p29_strings.cpp', flavour='asan', ldflags='-Wl,--wrap=exit,--wrap=abort')],
        rule='one evaluation = one operation on an exactly sized destination, result and guard bytes compared with the string model; deliberate stops '
             'are trapped and counted; distinct by (operation, sizes)',
    ),
    'P14': dict(
        stages=[dict(driver='p14_kepler.cpp', flavour='plain', ldflags='-Wl,--wrap=exit,--wrap=abort'), dict(driver='p14_kepler.cpp', flavour='asan', mode='san', ldflags='-Wl,--wrap=exit,--wrap=abort')],
        rule='one evaluation = one orbit, (orbit, time), Kepler equation, packed element set or phase angle through the real code, compared with a '
             'universal-variable solution in long double; distinct by (orbit, time)',
    ),
    'P15': dict(
        stages=[dict(driver='p15_elements.cpp', flavour='plain', ldflags='-Wl,--wrap=exit,--wrap=abort'), dict(driver='p15_elements.cpp', flavour='asan', mode='san', ldflags='-Wl,--wrap=exit,--wrap=abort')],
        rule='one evaluation = one state vector turned into elements by the real code, checked against the defining relations in long double, and turned '
             'back three ways; distinct by state vector',
    ),
    'P16': dict(
        stages=[dict(driver='p16_moid.cpp', flavour='plain', ldflags='-Wl,--wrap=exit,--wrap=abort'), dict(driver='p16_moid.cpp', flavour='asan', mode='san', ldflags='-Wl,--wrap=exit,--wrap=abort')],
        rule='one evaluation = one pair of orbits (or one planet orbit) through the real search, compared with a two-dimensional brute-force search plus '
             'Newton refinement, in both orders and rotated; distinct by pair',
        assumptions=['planet elements are a copy of the published JPL table'],
    ),
    'P17': dict(
        stages=[dict(driver='p17_orbrec.cpp', flavour=f, mode=m, extra=['mpcorb.cpp'], tools=['mpc2sof=mpc2sof.cpp mpcorb.cpp']) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one generated record (or damaged one, or one catalogue converted by mpc2sof) read by the real code from an exactly sized '
             'buffer and compared with the values written; distinct by record text',
    ),
    'P18': dict(
        stages=[dict(driver='p18_showelem.cpp', flavour=f, mode=m, ldflags='-Wl,--wrap=exit,--wrap=abort') for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one orbit listed by the real code, every labelled number read back by a strict reader and compared with the orbit in '
             'long double to one unit of the last digit shown; distinct by (orbit, format)',
    ),
    'P11': dict(
        stages=[dict(driver='p11_ades.cpp', flavour=f, mode=m, ldflags='-Wl,--wrap=exit,--wrap=abort') for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one generated ADES document (XML/PSV/plain lines interleaved) translated by the real code through its three interfaces, '
             'every output line matched with the observation it came from; distinct by 80-column record',
    ),
    'P19': dict(
        stages=[dict(driver='p19_precess.cpp', flavour='plain')],
        rule='one evaluation = one pair of epochs, direction, date or Earth-orientation record through the real code, compared with rotations composed '
             'in long double from the published expressions; distinct by (epochs) or date',
        assumptions=['IAU 1976 precession, IAU 1980 nutation, Laskar obliquity and 1982 sidereal time are the published expressions'],
    ),
    'P20': dict(
        stages=[dict(driver='p20_sphere.cpp', flavour='plain')],
        rule='one evaluation = one direction, vector, horizon place or pair of directions through the real transforms, compared with directions computed '
             'in long double; distinct by direction or pair',
    ),
    'P21': dict(
        stages=[dict(driver='p21_geodesic.cpp', flavour='plain')],
        rule='one evaluation = one pair of points (or one direct problem) through the real formulae, compared with the exact geodesic integrals in long '
             'double; distinct by pair',
    ),
    'P22': dict(
        stages=[dict(driver='p22_constell.cpp', flavour='plain')],
        rule='one evaluation = one position handed to the real lookup and compared with exact region membership (boundary segments checked against the 88 '
             'published areas, which the areas covered by the real lookup must equal too); distinct by position',
        assumptions=['boundary segments enclose the published area of each constellation to 0.001 square degrees'],
    ),
    'P23': dict(
        stages=[dict(driver='p23_refract.cpp', flavour='plain', extra=['refract.cpp', 'refract4.cpp'])],
        rule='one evaluation = one altitude and atmosphere, or one sky geometry, through the real functions and through the published model in long double; '
             'distinct by inputs',
        assumptions=['model constants are those of Bennett/Saemundsson/Saastamoinen, the Explanatory Supplement (3.281) and Schaefer (1998)'],
    ),
    'P24': dict(
        stages=[dict(driver='p24_cospar.cpp', flavour=f, mode=m, extra=['cospar.cpp']) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one query (orientation, radii, rotation rate) in a history of queries, reloads and Delta-T changes, compared with an '
             'independent reading of the data file in force (the real one or a generated one); distinct by (body, system, date)',
        assumptions=['the middle row of the matrix is 90 degrees of planetographic longitude: west for prograde bodies, east for retrograde ones'],
    ),
    'P25': dict(
        stages=[dict(driver='p25_series.cpp', flavour='plain'), dict(driver='p25_series.cpp', flavour='asan', mode='san')],
        rule='one evaluation = one position from a generated data file (vsop.bin, big_vsop.bin, ps_1996.dat, elp82.dat in their documented layouts, or the '
             'published lunar table) through the real evaluator and through the series summed in long double; distinct by result',
        assumptions=['the real data files are not in the repository: generated files in the same layout stand for them',
                     'pluto.cpp and elp82dat.cpp read unaligned integers by design (little-endian machines only, says the source); alignment reports are off'],
    ),
    'P26': dict(
        stages=[dict(driver='p26_sats.cpp', flavour='plain', extra=['gust86.cpp', 'rocks.cpp', 'htc20b.cpp']),
                dict(driver='p26_sats.cpp', flavour='asan', extra=['gust86.cpp', 'rocks.cpp', 'htc20b.cpp'])],
        rule='one evaluation = one satellite position (or a set, for Jupiter) compared with the published theory evaluated in long double and with '
             'orbit-level facts (size, plane, period, Laplace relation, velocity = motion of the position, co-orbitals 60 degrees away); distinct by (date, body)',
        assumptions=['coefficients were transcribed from the source after checking them against D\'Alembert\'s rule, Meeus\' formulae (recalled) and his '
                     'worked example for Saturn; a misprint shared by source and table would not be seen',
                     'sines and tangents of constant angles given to six figures in the source limit the comparison for Titan..Phoebe to 2e-6 of the distance'],
    ),
    'P27': dict(
        stages=[dict(driver='p27_earth.cpp', flavour=f, mode=m, extra=['solseqn.cpp', 'riseset3.cpp', 'lun_tran.cpp'],
                     tools=['phases=phases.cpp', 'tables=tables.cpp riseset3.cpp', 'solseqn=solseqn.cpp -DTEST_CODE', 'transit=transit.cpp']) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one position of the Earth against the published series and an independent solar theory, or one reported event (phase, season, rise, set, '
             'transit, elongation, by function or by program) put back into independent solar and lunar theories; distinct by (date, event)',
        assumptions=['vsop.bin and big_vsop.bin are not part of the repository: files with the published leading terms of the Earth, Keplerian planets and the published lunar theory are generated',
                     'the independent solar theory is good to 0.01 degree, which bounds what an event time can be held to (about a minute for phases, a quarter hour for seasons)'],
    ),
    'P30': dict(
        stages=[dict(driver='p30_fuzz.cpp', flavour=f, extra=['mpcorb.cpp'], ldflags='-Wl,--wrap=exit,--wrap=abort') for f in ('fuzza', 'fuzzm')],
        rule='one evaluation = one text (mutated under guidance of the edges it newly reaches in the library) through every parser of its kind, in exactly sized '
             'heap blocks, under AddressSanitizer+UBSan and again under MemorySanitizer; results must be initialised and terminated; the corpus is replayed for lost memory; distinct by (parser, text)',
        assumptions=['a failed assert() or exit() with a diagnostic counts as a deliberate refusal',
                     'buffers have the sizes the headers document (13 bytes for packed and 25 for unpacked designations, 221 for ADES output, 90 for region names)'],
    ),
    'P32': dict(
        stages=[dict(driver='p32_cgi.cpp', flavour='asan', extra=['cgi_func.cpp'])],
        rule='one evaluation = one form submission, encoded by an independent encoder (or then damaged), through the environment and stdin into the real readers; distinct by submission',
        assumptions=['field names are limited to 29 bytes (all callers have 30-byte buffers)', 'the buffer for a multipart value has to take the boundary line too',
                     'line ends at the end of a multipart value belong to the framing'],
    ),
    'P31': dict(
        stages=[dict(driver='p31_history.cpp', flavour=f, mode=m, extra=['gust86.cpp', 'rocks.cpp', 'htc20b.cpp', 'solseqn.cpp', 'riseset3.cpp', 'lun_tran.cpp', 'marstime.cpp',
                     'easter.cpp', 'refract4.cpp', 'refract.cpp', 'colors.cpp', 'obliqui2.cpp', 'mpcorb.cpp']) for f, m in (('plain', ''), ('asan', 'san'), ('fuzzm', 'san'))],
        rule='one evaluation = one answer inside a random history of queries and documented setters compared bit for bit with the answer a fresh process with '
             'only the current setter values gives; distinct by (previous call, call, setter state)',
        assumptions=['one thread: the library documents no thread safety'],
    ),
    'P33': dict(
        stages=[dict(driver='p33_tools.cpp', flavour='asan', tools=[
            'adestest=adestest.cpp', 'astcheck=astcheck.cpp', 'astephem=astephem.cpp mpcorb.cpp', 'calendar=calendar.cpp', 'cgicheck=cgicheck.cpp astcheck.cpp -DCGI_VERSION',
            'chinese=chinese.cpp', 'colors=colors.cpp -DSIMPLE_TEST_PROGRAM', 'colors2=colors2.cpp -DTEST_FUNC', 'cosptest=cosptest.cpp', 'csv2ades=csv2ades.c',
            'dist=dist.cpp', 'easter=easter.cpp -DTEST_CODE', 'get_test=get_test.cpp', 'gtest=gtest.c', 'htc20b=htc20b.cpp -DTEST_MAIN',
            'jd=jd.cpp', 'jevent=jevent.cpp', 'jpl2b32=jpl2b32.cpp', 'jsattest=jsattest.cpp', 'lun_test=lun_test.cpp lun_tran.cpp riseset3.cpp',
            'marstime=marstime.cpp -DTEST_PROGRAM', 'mms=mms.cpp', 'moidtest=moidtest.cpp', 'mpc2sof=mpc2sof.cpp mpcorb.cpp', 'mpc_code=mpc_code.cpp -DTEST_CODE',
            'oblitest=oblitest.cpp obliqui2.cpp', 'parallax.cgi=parallax.cpp -DCGI_VERSION', 'parallax=parallax.cpp', 'persian=persian.cpp solseqn.cpp', 'phases=phases.cpp',
            'prectest=prectest.cpp', 'prectes2=prectes2.cpp', 'ps_1996=ps_1996.cpp', 'relativi=relativi.cpp -DTEST_CODE', 'sof=sof.cpp -DTEST_CODE',
            'solseqn=solseqn.cpp -DTEST_CODE', 'spline=spline.cpp -DTEST_CODE', 'ssattest=ssattest.cpp', 'tables=tables.cpp riseset3.cpp', 'test_des=test_des.cpp',
            'test_ref=test_ref.cpp refract.cpp refract4.cpp', 'testprec=testprec.cpp', 'test_min=test_min.cpp', 'them_cat=them_cat.c', 'mpc_time=mpc_time.c',
            'themis=themis.cpp', 'transit=transit.cpp', 'uranus1=uranus1.cpp gust86.cpp', 'utc_test=utc_test.cpp'])],
        rule='one evaluation = one run of a sanitized program with a chosen argument list and a scratch directory whose data files are whole, missing or damaged, '
             'watched for sanitizer reports, signals and unending runs; distinct by (arguments, state of the data)',
        assumptions=['data files absent from the repository are replaced with generated ones of the same layout', 'an assertion or a cut at the output limit counts as a refusal'],
    ),
    'P34': dict(
        stages=[dict(driver='p34_astcheck.cpp', flavour=f, mode=m, tools=['astcheck=astcheck.cpp', 'astephem=astephem.cpp mpcorb.cpp']) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one run of astcheck or astephem on generated catalogues and observations, every row of its output and every row it should have had '
             'compared with two-body positions in long double; distinct by (object, place)',
        assumptions=['the Earth\'s position is the library\'s (decided by P27); catalogues are generated, as mpcorb.sof, astorb.dat and ObsCodes.htm are not part of the repository',
                     'objects within 0.25 au of the observer, or within 150 arcseconds plus parallax inside the search radius, may or may not be listed (the tool first selects by daily geocentric places)'],
    ),
    'P35': dict(
        stages=[dict(driver='p35_dateprogs.cpp', flavour=f, mode=m, tools=['jd=jd.cpp', 'calendar=calendar.cpp', 'utc_test=utc_test.cpp', 'gtest=gtest.c', 'mpc_time=mpc_time.c']) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one run of jd, calendar, utc_test or gtest whose every printed date, time or cell is compared with independent calendars and scales; '
             'distinct by (program, arguments)',
    ),
    'P36': dict(
        stages=[dict(driver='p36_convert.cpp', flavour=f, mode=m, tools=['adestest=adestest.cpp', 'csv2ades=csv2ades.c', 'them_cat=them_cat.c', 'themis=themis.cpp', 'mms=mms.cpp',
                     'jpl2b32=jpl2b32.cpp', 'xxx2rov=xxx2rov.c']) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one generated input put through a converter, every record of the output compared with the values the input was generated from; distinct by input text',
    ),
    'P37': dict(
        stages=[dict(driver='p37_places.cpp', flavour=f, mode=m, tools=['parallax=parallax.cpp', 'parallax_cgi=parallax.cpp -DCGI_VERSION', 'dist=dist.cpp', 'mpc_code=mpc_code.cpp -DTEST_CODE']) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one run of parallax, parallax.cgi, dist or mpc_code on a generated place, every form of it that the program prints compared with independent geodesy; distinct by arguments',
    ),
    'P38': dict(
        stages=[dict(driver='p38_addoff.cpp', flavour=f, mode=m, tools=['add_off=add_off.c']) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one run of add_off on a generated file of observations, with a stand-in for the ephemeris service; every line of its output and every request it made checked; distinct by file',
    ),
    'P39': dict(
        stages=[dict(driver='p39_jevent.cpp', flavour=f, mode=m, tools=['jevent=jevent.cpp']) for f, m in (('plain', ''), ('asan', 'san'))],
        rule='one evaluation = one run of jevent for a random date, span, choice of moons and outputs, its list compared event by event with a scan of the moons\' geometry; distinct by arguments',
    ),
}
NOT_APPLICABLE = {}
