"""Writes properties.jsonl and MANIFEST.json from one table.

    python3 tools/describe.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'ghedt/'
P = 'ghedt/peak_load_analysis_tool/'
D, S, GH, GF = G + 'design.py', G + 'search_routines.py', \
    G + 'ground_heat_exchangers.py', G + 'gfunction.py'
DO, CO, FE, UT = G + 'domains.py', G + 'coordinates.py', \
    G + 'feature_recognition.py', G + 'utilities.py'
ME, BH, EQ, GL, PM, RN = G + 'media.py', P + 'borehole_heat_exchangers.py', \
    P + 'equivalance.py', P + 'ground_loads.py', P + 'media.py', \
    P + 'radial_numerical_borehole.py'

TABLE = []


def prop(id_, title, statement, over, quant, why, mech, technique, note,
         state=(), observe=()):
    files = []
    for _, where in mech:
        f = where.split(':')[0]
        if f not in files:
            files.append(f)
    TABLE.append(({
        'id': id_, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': quant},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': a, 'meaning': b, 'where': c}
                      for a, b, c in state],
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'observe_at': list(observe), 'hook_needed': None}}, {
        'property': id_,
        'quick_cmd': './check.sh {} quick'.format(id_),
        'thorough_cmd': './check.sh {} thorough'.format(id_),
        'technique': technique, 'level': 'exploration', 'level_note': note}))


IN, CF, HI, SC = 'inputs', 'configurations', 'histories', 'schedules'

prop('C01', 'A finished design keeps the fluid within its temperature limits',
     'The borefield and depth a design arrives at (routines near-square, '
     'rectangle, bi-rectangle and bi-zoned; hourly or hybrid simulation) keep '
     'the heat pump entering fluid temperature within the allowed minimum and '
     'maximum over the whole simulated period, judged by a simulation that is '
     'independent of the one in the design. The field is needed: the candidate '
     'before it, at the maximum depth, exceeds a limit or stays farther below '
     'the limits. If no candidate can keep the limits, the design is refused '
     'with an error.',
     [IN, CF], 'Every feasible combination of loads, borehole, heat exchanger '
     'type, soil, fluid, flow, limits, period, land and routine.',
     'The tests run a few fixed designs and pin their numbers of boreholes; '
     'they never re-simulate the result, and every other site, load or fluid '
     'is out of their reach.',
     [('selection of the field', S + ':Bisection1D.search, Bisection2D, '
       'BisectionZD'), ('sizing', GH + ':GHE.size'),
      ('dispatch on the routine', D + ':Design.find_design'),
      ('flow of each field', S + ':retrieve_flow')],
     'runtime monitoring of complete designs, judged by an independent '
     're-simulation',
     'Complete designs with the real physics on seeded sites; the temperatures '
     'of the chosen field are recomputed with g-functions from pygfunction and '
     'a plain convolution. Trusts pygfunction and the response factors of the '
     'short time step model (C16 judges those).',
     observe=['Design.find_design()', 'ghe.size()', 'ghe.simulate()'])

prop('C02', 'The one-dimensional field search returns the first sufficient field',
     'For a list of candidate fields in the order of their capacity, the '
     'search returns a field that keeps the temperature limits at the maximum '
     'depth while the field before it does not, and reports exactly the '
     'temperatures it computed for that field. When even the first field '
     'suffices at the minimum depth it is the one returned, when not even the '
     'last field suffices the search ends with an error, and a field that '
     'meets the limits exactly is sufficient. A search repeated on the same '
     'object, also with other limits, gives the result of a first one. The '
     'number of fields simulated stays logarithmic in the number of candidates.',
     [IN, HI], 'Every list of candidates, every sequence of excess '
     'temperatures (including exact zeros, ties and lists of one or two '
     'fields) and every flow specification.',
     'The tests see a handful of searches with fixed results; the branches at '
     'the ends of the list, exact zeros and short lists are never reached.',
     [('bisection', S + ':Bisection1D.search'),
      ('selection of the closest field below zero', S + ':Bisection1D.search'),
      ('excess temperature of a field', S + ':Bisection1D.calculate_excess')],
     'runtime monitoring: trace checker over scripted and real searches',
     'The real search runs against a scripted heat exchanger whose excess '
     'temperatures are known for every field and depth, so that the oracle '
     'enumerates all of them; every simulation the search asks for is recorded '
     'and judged. Excess temperatures that do not decrease along the list are '
     'only required to give a feasible result.',
     [('calculated_temperatures', 'excess temperature by index', S)],
     ['the field, depth and flow of every simulation the search requests'])

prop('C03', 'Nested searches choose the right row and the least total drilling',
     'The two-dimensional search first picks the row of fields in which the '
     'requirement is met and then the first sufficient field of that row. The '
     'search that compares rows by drilling sizes the fields it proposes, '
     'stops once the total drilling length grows, and returns the field with '
     'the least total drilling of all it has sized; the depth, field and '
     'flow it returns belong together.',
     [IN, HI], 'Every nested list of candidates and every scripted response '
     'of the temperatures to the number of boreholes and depth.',
     'The tests run each nested search once on one site; which row is chosen, '
     'when the search stops and ties cannot be settled from that.',
     [('outer and inner bisection', S + ':Bisection2D'),
      ('drilling comparison', S + ':BisectionZD.search_successive'),
      ('sizing within the search', GH + ':GHE.size')],
     'runtime monitoring: trace checker over scripted nested searches',
     'As C02, with nested lists; total drilling is recomputed from the '
     'scripted world for every row the search visits.',
     [('calculated_heights', 'total drilling by row', S)],
     ['every simulation and sizing the search requests'])

prop('C04', 'Sizing returns a depth at which the limits are exactly met',
     'Sizing a heat exchanger gives a depth between the minimum and maximum '
     'height at which the worst violation of the temperature limits is zero; '
     'the minimum height when that already keeps the limits, and the maximum '
     'height, with a warning, when no height suffices. The violation of a pair '
     'of highest and lowest temperatures is the worse of the two, and negative '
     '(the narrower margin) when both are kept. The state left behind '
     '(depth, temperatures, resistances) is the one of that depth, as a fresh '
     'heat exchanger of that depth would show.',
     [IN, CF], 'Every load, field, heat exchanger, pair of limits and height '
     'bounds, with hybrid and hourly simulation.',
     'The tests compare two or three sized depths to stored values; the ends '
     'of the interval and the state left behind are not looked at.',
     [('root search between the heights', GH + ':GHE.size'),
      ('bracketing and bounds', EQ + ':solve_root'),
      ('excess temperature', GH + ':BaseGHE.cost')],
     'runtime monitoring of sizing, judged by fresh independent simulations',
     'The depth is judged by an independently computed simulation at that '
     'depth and at depths above and below. Tolerance 1e-3 K.',
     observe=['ghe.bhe.b.H', 'ghe.hp_eft', 'warnings'])

prop('C05', 'Every named borefield shape is exactly the set of its boreholes',
     'Rectangle, open rectangle, L, U, lopsided U, C and zoned rectangle '
     'layouts contain exactly the boreholes of their geometric definition, '
     'each once, with the given counts and spacings in the two directions. '
     'Interior boreholes that do not fit are refused, and transposing a '
     'layout only exchanges the two axes.',
     [IN], 'All counts (including one or two per side) and spacings.',
     'The tests use a few rectangles as part of larger runs; degenerate counts '
     'and most shapes are never built.',
     [('shapes', CO + ':rectangle, open_rectangle, L_shape, U_shape, lop_U, '
       'C_shape, zoned_rectangle'),
      ('axes', CO + ':transpose_coordinates'),
      ('spacing', UT + ':borehole_spacing')],
     'runtime monitoring: returned layouts against set definitions',
     'Generated counts and spacings against independent set definitions.',
     observe=['the returned coordinates'])

prop('C06', 'Candidate fields fit the land and keep the spacing limits',
     'Every field of every candidate list (rectangle, bi-rectangle, '
     'bi-zoned, near-square) lies within the land given and keeps its nearest '
     'boreholes at least the minimum spacing apart. Neighbouring rows and '
     'columns are no further apart than the maximum spacings given for the '
     'two directions, however the land is oriented.',
     [IN, CF], 'Every land of any aspect and orientation and all feasible '
     'spacing limits, including land that is an exact multiple of a spacing.',
     'The tests compare stored lists for a single land; rounding at exact '
     'multiples and land that is wider than long do not occur.',
     [('domains', DO + ':rectangular, bi_rectangular, bi_rectangle_nested, '
       'zoned_rectangle_domain, bi_rectangle_zoned_nested, '
       'square_and_near_square'),
      ('near-square land', D + ':Design.__init__')],
     'runtime monitoring: geometric checker over generated candidate fields',
     'Every field of generated domains; tolerance 1e-6 m. One known finding '
     '(the last near-square field).', observe=['coordinates_domain of a '
                                               'design'])

prop('C07', 'Candidate lists are complete, ordered and without repetition',
     'A candidate list starts with the smallest field, the number of '
     'boreholes grows along it, no field occurs twice, and it contains all '
     'the fields its construction rule describes and no others. Exchanging '
     'the two sides of the land exchanges the axes of the fields and changes '
     'nothing else. Ordering a list by the number of boreholes keeps every '
     'field.',
     [IN, CF], 'Every land and all feasible spacing limits, both '
     'orientations.',
     'The tests compare the lists of one land to stored ones.',
     [('domains', DO + ':rectangular, bi_rectangular, bi_rectangle_nested, '
       'bi_rectangle_zoned_nested, square_and_near_square'),
      ('ordering', DO + ':reorder_domain'),
      ('counts along a side', UT + ':number_of_boreholes, length_of_side, '
       'spacing_along_length')],
     'runtime monitoring: domains against an independent enumeration',
     'Fields compared as sets to an enumeration written from the description '
     'in the changelog; inputs at which a count is decided by rounding are '
     'left out of the enumeration, not of the other judgements.',
     observe=['coordinates_domain of a design'])

prop('C08', 'Only boreholes inside the property and outside of buildings stay',
     'Of a field, exactly the boreholes inside the property line and outside '
     'of the no-drill zones are kept, in their order, and boreholes on an '
     'outline are kept or dropped as requested. The candidate lists for a '
     'polygonal property consist of the fields of its bounding rectangle '
     'without the boreholes that may not be drilled (those on the outline of '
     'a building included, those on the property line are kept), contain no '
     'empty field, '
     'and are ordered by the number of boreholes.',
     [IN], 'Every simple polygon, convex or not, with or without building, '
     'and every field.',
     'One polygon is used by the tests, and only its plots are produced.',
     [('point in polygon', FE + ':remove_cutout, scale_coordinates'),
      ('polygonal domains', DO + ':polygonal_land_constraint, verify_excess, '
       'reorder_domain')],
     'runtime monitoring: kept boreholes against an independent ray-crossing '
     'test',
     'Boreholes closer than 0.5 mm to an outline are only judged when they '
     'are exactly representable (resolution of the OpenCV test used).',
     observe=['returned fields'])

prop('C09', 'Hourly loads are split and summarised without loss',
     'Splitting hourly ground loads gives the extraction and the rejection '
     'of every hour, in kW, with the sign convention documented and nothing '
     'lost or moved. For each month, the total, the average, the peak and the '
     'day of the first peak are those of its hours.',
     [IN], 'Every year of hourly loads in W or kW: one-sided, zero months, '
     'ties, constants, peaks in the first and last hour of days and months.',
     'The tests use one office building; ties, zero months and month borders '
     'do not occur.',
     [('splitting', GL + ':HybridLoad.split_heat_and_cool'),
      ('months', GL + ':Loads.split_load_by_month')],
     'runtime monitoring: recorded monthly statistics against direct sums',
     'Generated years (18 shapes) against direct sums over the hours.',
     observe=['Loads monthly tables', 'HybridLoad.rejection/extraction'])

prop('C10', 'The hybrid load profile preserves time, monthly energy and peaks',
     'The condensed load profile advances strictly in time from the first to '
     'the last hour of the simulated months, and the energy of every '
     'simulated month equals the energy of the hourly loads of that month. A '
     'peak appears in each of the first and the last twelve simulated months '
     'that has one, with its size and duration, on '
     'the day it occurs, for both kinds of loads; months whose two peaks fall '
     'on the same day keep their energy.',
     [IN, CF], 'Every year of loads and every start and end month, including '
     'years of any length and starts in any month.',
     'The tests compare the profile of one building over full years to stored '
     'values.',
     [('condensation', GL + ':HybridLoad.process_monthly_loads'),
      ('placement of the peaks', GL + ':Loads.peak_hour_range'),
      ('calendar', GL + ':monthdays, firstmonthhour, lastmonthhour')],
     'runtime monitoring: conservation and ordering checker over the profile',
     'The profile is integrated piecewise and compared to the hourly loads '
     'month by month.', observe=['HybridLoad.load, hour, sfload'])

prop('C11', 'Peak durations reproduce the temperature rise of the peak days',
     'The duration given to a monthly peak is the time after which the peak '
     'load, less the monthly average, has changed the fluid temperature as '
     'much as the actual loads of the day of the peak and the following day do '
     'at most. It lies between 0 and 48 hours, is negligible in months without '
     'a peak, and depends on the loads of these two days, also across the end '
     'of months and of the year.',
     [IN], 'Every year of loads, every borehole and every response of the '
     'ground.',
     'The tests pin twelve durations of one building and borehole.',
     [('two-day window', GL + ':Loads.process_two_day_loads'),
      ('duration', GL + ':Loads.find_peak_durations, '
       'perform_current_month_simulation, simulate_hourly')],
     'runtime monitoring: durations against an independent two-day simulation',
     'The window of the day of the peak and the day after it is what the '
     'tests of the repository pin (a comment says the day before).',
     observe=['Loads.monthly_peak_duration'])

prop('C12', 'Simulated temperatures are the superposition of the ground loads',
     'The fluid temperature at each step is the undisturbed ground '
     'temperature plus the superposed responses to all earlier changes of the '
     'load, plus the load times the borehole resistance, plus half of the '
     'temperature change of the fluid over the field. It responds linearly to '
     'the loads and only to earlier ones, and the reported maximum, minimum '
     'and excess temperatures are those of the series. Simulating changes '
     'neither the loads nor the later results.',
     [IN, CF], 'Every field, heat exchanger, soil, fluid, flow and load, with '
     'hybrid and hourly steps.',
     'The tests compare the extremes of a few runs to stored values.',
     [('convolution', GH + ':BaseGHE._simulate_detailed'),
      ('loads per borehole length', GH + ':GHE.simulate'),
      ('excess', GH + ':BaseGHE.cost')],
     'runtime monitoring: temperatures against an independent convolution and '
     'metamorphic relations',
     'Convolution written anew from the equations; plus linearity, causality '
     'and zero-load relations.', observe=['ghe.hp_eft, ghe.dTb, times'])

prop('C13', 'Simulation covers exactly the requested months, hourly and hybrid',
     'A simulation from a start month to an end month covers exactly the '
     'hours of these months and applies to each the loads of its calendar '
     'month, whichever month it starts in and however many years it lasts. '
     'Hourly and hybrid simulations of the same loads agree in their mean '
     'loads and, where the loads are constant over each month, in their '
     'temperatures.',
     [IN, CF], 'Every start and end month, loads and field.',
     'The tests only simulate full years from January.',
     [('horizon of the hourly loads', GH + ':GHE.simulate'),
      ('months of the hybrid loads', GL + ':HybridLoad.process_monthly_loads'),
      ('period', PM + ':SimulationParameters')],
     'runtime monitoring: differential hourly against hybrid, and against a '
     'calendar of the harness', 'Differential and independent calendar.',
     observe=['ghe.times', 'ghe.hp_eft'])

prop('C14', 'Long-time response factors are those of the field and its depths',
     'For each height requested, the response factors computed for a field '
     'are those of its boreholes at that height, buried depth and radius in '
     'the ground, at the requested times, under the requested options, and '
     'they are filed under that height. They do not depend on where the field '
     'lies, increase with time, and computing them leaves the inputs alone.',
     [IN, CF], 'Every field, set of heights in any order, borehole, ground '
     'and option.',
     'The tests compare one stored case.',
     [('computation', GF + ':calculate_g_function, compute_live_g_function'),
      ('times', UT + ':Eskilson_log_times')],
     'runtime monitoring: differential against pygfunction and an independent '
     'line-source integral',
     'Values against direct calls of pygfunction and, for uniform heat flux, '
     'against a finite line source integral of the harness.',
     observe=['GFunction data'])

prop('C15', 'Response factors between stored depths are interpolated correctly',
     'Between stored heights, response factors are interpolated over the '
     'height at constant spacing; at a stored height they are the stored ones, '
     'and the result does not depend on earlier requests. They are corrected '
     'for a different borehole radius by the logarithm of the radii, and for '
     'a file of stored fields by scaling to the spacing wanted. A ratio '
     'outside of the stored ones is refused, or extrapolated with a warning '
     'where the tool says so.',
     [IN, HI], 'Every set of stored curves, ratio and sequence of requests.',
     'One stored file and four ratios are tested.',
     [('interpolation', GF + ':GFunction.g_function_interpolation'),
      ('radius', GF + ':GFunction.borehole_radius_correction'),
      ('scaling', GF + ':GFunction.correct_coordinates'),
      ('files', GF + ':GFunction.configure_database_file_for_usage')],
     'runtime monitoring: request histories against an independent '
     'interpolation', 'Polynomial (Lagrange) and linear interpolation written '
     'anew; histories of requests on one object.',
     observe=['returned curves'])

prop('C16', 'Short-time response factors join the long-time ones consistently',
     'The short-time response factors follow from the radial heat balance of '
     'the equivalent borehole and cover the times before the long-time ones. '
     'The joined curve contains all long-time values, no time twice, increases in time, '
     'and always belongs to the current depth of the borehole.',
     [IN, HI], 'Every heat exchanger type, depth, soil, grout and history of '
     'depth changes.',
     'The tests compare a single stored curve.',
     [('radial model', RN + ':RadialNumericalBH.fill_radial_cell, '
       'calc_sts_g_functions'),
      ('union', GH + ':BaseGHE.combine_sts_lts, grab_g_function')],
     'runtime monitoring: recorded curves against an independent radial heat '
     'balance',
     'An independent one-dimensional finite-volume solution of the same '
     'discretised cylinder.', observe=['RadialNumericalBH.g, lntts'])

prop('C17', 'Borehole thermal resistances follow from the present data',
     'The pipe, convection and effective borehole resistances of single, '
     'double, multiple and coaxial heat exchangers follow from the documented '
     'formulas and pygfunction for the current flow, fluid, pipes, grout and '
     'depth. After an update of flow or fluid they equal those of a heat '
     'exchanger constructed with the new values, whatever was updated before. '
     'Parallel legs share the flow equally, legs in series carry all of it, '
     'and the pipes are placed symmetrically without overlap.',
     [IN, HI], 'Every geometry, fluid, flow (laminar to turbulent) and '
     'history of updates.',
     'The tests compute a few resistances of three fixed boreholes.',
     [('construction and update', BH + ':SingleUTube, MultipleUTube, '
       'CoaxialPipe'),
      ('flow per pipe', BH + ':BasePipe.compute_mass_flow_rate_pipe'),
      ('resistance', BH + ':BasePipe.compute_effective_borehole_resistance'),
      ('places of pipes', PM + ':Pipe.place_pipes'),
      ('Reynolds numbers', BH + ':compute_Reynolds, '
       'compute_Reynolds_concentric')],
     'runtime monitoring: resistances against independent formulas over '
     'update histories',
     'Formulas written anew; the multipole resistance itself is taken from '
     'pygfunction. Tolerance 1e-5 relative (cache of pygfunction).',
     observe=['R_f, R_p, effective resistance, m_flow_pipe'])

prop('C18', 'The equivalent single U-tube keeps resistance and volumes',
     'The single U-tube that stands in for another heat exchanger has the '
     'same effective borehole resistance, the same fluid and pipe wall '
     'volumes, the same fluid, soil and borehole, and the full flow, with '
     'pipes that fit into the borehole without overlap. A single U-tube is '
     'its own equivalent, and the original is left unchanged.',
     [IN], 'Every double, multiple and coaxial heat exchanger, flow, fluid '
     'and depth.',
     'The tests compare the results for three boreholes.',
     [('dispatch', EQ + ':compute_equivalent'),
      ('volumes', EQ + ':u_tube_volumes, concentric_tube_volumes'),
      ('matching', EQ + ':equivalent_single_u_tube, '
       'match_effective_borehole_resistance, solve_root')],
     'runtime monitoring: conservation checker over generated equivalents',
     'Volumes and resistances recomputed from the geometry. Where no grout '
     'conductivity within the search bounds reaches the resistance, the bound '
     'nearest to it is expected.',
     observe=['compute_equivalent()'])

prop('C19', 'The specified flow reaches every borehole and pipe',
     'A flow given for the system is divided by the number of boreholes of '
     'whatever field is considered; a flow given per borehole reaches each '
     'borehole of every field. The mass flow used for the resistances and for '
     'the temperature change follows from it and the fluid density, so that '
     'two equal specifications give equal results, and an unknown kind of '
     'flow is refused.',
     [IN, CF], 'Every field, fluid, flow and kind of specification, over '
     'searches with changing fields.',
     'The tests fix one flow per kind; flows that change with the field '
     'considered are not looked at.',
     [('flow of a field', S + ':Bisection1D.retrieve_flow, initialize_ghe'),
      ('mass flows', GH + ':BaseGHE.__init__'),
      ('design', D + ':Design')],
     'runtime monitoring: flow seen at each component of searches, and '
     'differential results', 'Flows are read at every constructed heat '
     'exchanger; the g-functions requested are recorded too.',
     observe=['m_flow_borehole, m_flow_pipe, V_flow_system'])

prop('C20', 'Files written and read give back the same design and results',
     'A design written to an input file and read back, in the same or '
     'another process, finds the same field and depth and is equal to the '
     'original in all its data; writing again over an old file leaves no '
     'remains. JSON data survive unchanged. The exported description of a '
     'sized design contains the field, depth, resistances, flow and response '
     'factors of that design.',
     [IN, CF], 'Every kind of design and heat exchanger.',
     'The tests write input files but never compare what is read back, and '
     'export is run once.',
     [('input files', UT + ':create_input_file, read_input_file'),
      ('JSON', UT + ':js_dump, js_load, create_if_not'),
      ('export', S + ':oak_ridge_export')],
     'runtime monitoring: round trips with state comparison across processes',
     'Recursive comparison of the complete object state, and of results.',
     observe=['files in a scratch directory'])

prop('C21', 'Results depend on the arguments only, not on earlier use',
     'Whatever was constructed, simulated, sized, searched or updated before, '
     'in the same process and in any order, a computation gives the result a '
     'fresh process gives, and repeating it gives it again. Inputs (loads, '
     'coordinates, heat exchanger data, parameters) are not changed by '
     'computations, apart from the depth that sizing is there to change. '
     'Independent computations in several threads give what they give alone.',
     [HI, SC], 'Every history of operations on shared and separate objects, '
     'and thread schedules of independent objects.',
     'Each test runs one sequence once, in one thread.',
     [('heat exchanger state', GH + ':GHE'),
      ('interpolation tables', GF + ':GFunction'),
      ('updates', BH + ':update_thermal_resistance'),
      ('searches', S + ':Bisection1D, Bisection2D, BisectionZD')],
     'runtime monitoring: operation histories and thread stress, judged '
     'against fresh objects',
     'Histories are replayed on fresh objects; threads run with a 1 µs switch '
     'interval. pygfunction keeps a module-level cache that is not protected '
     'against threads; its resistance computation is locked by the monitor.',
     observe=['results and state before and after each operation'])

prop('C22', 'Impossible or incomplete requests are refused, complete ones accepted',
     'A request that cannot be met is refused with an error and never answered '
     'with a silent result: a geometric parameter the chosen routine needs is '
     'missing; the routine, flow definition, simulation method, load unit, pipe '
     'configuration, boundary condition or kind of interpolation is unknown; '
     'the loads do not cover one year of hours; counts of boreholes are '
     'impossible; the object is not a heat exchanger; a file is missing. '
     'A refused request leaves the objects as they were. The '
     'same request made completely is accepted, whatever unneeded parameters '
     'come with it.',
     [IN, CF], 'Every routine and every way of leaving out or spoiling one of '
     'its inputs.',
     'The tests make valid requests only.',
     [('geometric constraints', ME + ':GeometricConstraints.check_inputs'),
      ('routine selection', D + ':Design'),
      ('flow', S + ':Bisection1D.retrieve_flow'),
      ('simulation method', GH + ':GHE.simulate'),
      ('units and year', GL + ':HybridLoad.split_heat_and_cool, Loads'),
      ('configuration', BH + ':compute_mass_flow_rate_pipe'),
      ('options', GF + ':calculate_g_function')],
     'runtime monitoring: fault injection into requests, refusal monitors with '
     'state comparison',
     'Any deliberate error counts as refusal; the complete twin of each request '
     'has to be accepted.',
     observe=['exceptions', 'state of the objects after a refusal'])

prop('C23', 'Synthetic and hourly representations of loads keep peaks and averages',
     'A monthly peak written into a year of hours fills its whole number of '
     'hours around noon of its day, within its month, on top of what other '
     'months hold; nothing outside of its month changes. The doubling profile '
     'gives every month its peak, duration and average in the units asked for. '
     'The hourly representation of the hybrid loads has in each month the peak '
     'load, for the rounded peak duration, on the day of the peak, and the '
     'average load in all other hours, for rejection and extraction.',
     [IN], 'Every month, day, duration, load, year and unit.',
     'No test calls these functions.',
     [('peak block', GL + ':synthetic_load_function'),
      ('doubling profile', GL + ':create_synthetic_doubling_load_profile'),
      ('hourly representation', GL + ':HybridLoad.hourly_load_representation')],
     'runtime monitoring: conservation and placement monitors on hourly series',
     'Direct evaluation of the definition for each hour of the year.',
     observe=['the hourly series'])

prop('C24', 'Reports and plots show what was computed',
     'Every quantity in the printed report of a heat exchanger (flows, Reynolds '
     'numbers, convection coefficients, resistances, media), of a ground heat '
     'exchanger (count, depth, spacing, limits, extreme temperatures, excess, '
     'monthly load statistics, coordinates, g-function) and of the parameters '
     'is the value that holds for the object as it is, after any update. '
     'Figures of loads, peak temperatures, g-functions, fields, land and '
     'domains draw exactly the data they are named after, one file for each '
     'field of a domain. Printing and drawing change nothing.',
     [IN, HI], 'Every heat exchanger, field, load and horizon, before and after '
     'simulations and updates.',
     'The tests never look into a report or a figure.',
     [('heat exchanger reports', BH + ':BasePipe.__repr__, '
       'CoaxialBase.__repr__'),
      ('ground heat exchanger report', GH + ':GHE.__repr__'),
      ('media', PM + ':Soil, Grout, Pipe, SimulationParameters'),
      ('load plots', GL + ':visualize_hourly_heat_extraction, '
       'visualize_fluid_simulation_results'),
      ('field plots', GF + ':visualize_g_functions, visualize_borefield, '
       'visualize_area_and_constraints'),
      ('coordinates', CO + ':visualize_coordinates'),
      ('domains', DO + ':visualize_domain')],
     'runtime monitoring: reports parsed and figures read back, against '
     'independently computed values',
     'Values to four decimals, as printed; figures by the data of their '
     'artists.',
     observe=['text of the reports', 'lines and points of the figures'])

prop('C25', 'Calendar, root search, polygon and error measures are exact',
     'Months have the hours of a 365-day calendar for any month number, '
     'counted from 1 and continuing over the years, and consecutive months '
     'meet without gap or overlap. The root search returns the root of a '
     'monotonic function within its tolerance with a bounded number of '
     'evaluations, the bound itself when the root lies there, and the bound '
     'nearest to the root when it lies outside. Area, bounding box, scaling and '
     'closing of a polygon do not depend on its orientation or first corner. '
     'Mean percentage error, sign and bracketing are what their definitions '
     'say.',
     [IN], 'Every month number, monotonic function, interval and polygon.',
     'These helpers decide all results but are tested for a few values.',
     [('calendar', GL + ':monthdays, firstmonthhour, lastmonthhour'),
      ('root search', EQ + ':solve_root'),
      ('polygons', UT + ':polygonal_area, make_rectangle_perimeter'),
      ('outlines', FE + ':scale_coordinates, determine_largest_rectangle'),
      ('error measures', UT + ':compute_mpe, sign, check_bracket')],
     'runtime monitoring: exhaustive and seeded inputs with known answers',
     'Answers known by construction.',
     observe=['returned values', 'number of function evaluations'])

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _ in TABLE:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({
            'version': 1,
            'setup_cmd': './setup.sh',
            'checks': [c for _, c in TABLE],
            'not_applicable': NOT_APPLICABLE,
            'notes': 'Pure Python; the checks import /repo/ghedt from the '
                     'working tree, so nothing needs to be rebuilt. No hooks '
                     'in /repo: the monitors wrap functions at run time. '
                     'Exit 3: inconclusive (a deciding monitor was not '
                     'reached, or the watchdog ended a case). '
                     'DESIGN.md describes oracles and limits; '
                     'known_findings.json the findings; properties.jsonl and '
                     'this file are written by tools/describe.py.'},
            f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()
