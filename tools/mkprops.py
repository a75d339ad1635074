"""Writes /verif/properties.jsonl (kept so that the wording lives in one readable place)."""
import json, os
DC='qctrlopencontrols/driven_controls/driven_control.py'
DP='qctrlopencontrols/driven_controls/predefined.py'
DS='qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py'
SP='qctrlopencontrols/dynamic_decoupling_sequences/predefined.py'
UT='qctrlopencontrols/utils.py'
EX='qctrlopencontrols/exceptions.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p('C01','Driven controls accept exactly well-formed segment data and store it unchanged',
 'Constructing a driven control succeeds exactly when every duration is positive, every Rabi rate is non-negative and every per-segment quantity that is given has as many entries as there are durations; in every other case it raises the package\'s arguments error. '
 'After construction the Rabi rates, azimuthal angles, detunings and durations of the control are floating-point arrays with the given values in the given order, and a quantity that was left out is zero on every segment. '
 'The control\'s name is the name given, or none.',
 ['inputs'],'all one-dimensional finite real sequences (lists, tuples, integer or float arrays) of any lengths, every subset of the optional quantities left out, any name',
 'The tests build a handful of controls with 2-10 segments; the statement is over all lengths, all values and all combinations of omitted and mismatched inputs.',
 [DC,UT],[('DrivenControl.__init__',DC),('check_arguments',UT)],['attributes of DrivenControl','ArgumentsValueError'])
p('C02','Derived quantities of a driven control follow from its segments',
 'For every driven control with at least one segment, the segment count, maximum Rabi rate, maximum detuning, longest and shortest segment duration and total duration are the count, largest, largest, largest, smallest and sum of the stored values. '
 'On each segment the x and y amplitudes are the Rabi rate times the cosine and sine of the azimuthal angle, and the rotation angle is the segment duration times the square root of Rabi rate squared plus detuning squared. '
 'The times are one more than the segments, start at zero and increase by each segment\'s duration in order.',
 ['inputs'],'all driven controls with N >= 1 segments and arbitrary admissible values',
 'Tests compare a few fixed arrays; the maxima, sums and element-wise formulas must hold for every number of segments and every sign pattern (for example all-negative detunings).',
 [DC],[('number_of_segments, maximum_*, minimum_duration, duration',DC),('amplitude_x, amplitude_y, angles, times',DC)],['properties of DrivenControl'])
p('C03','Segment directions are unit vectors along the drive, at any drive strength',
 'For every segment of a driven control whose drive strength (square root of Rabi rate squared plus detuning squared) exceeds 1e-20 of the strongest segment of the control, the reported direction is the unit vector along (x amplitude, y amplitude, detuning). '
 'A segment with no Rabi rate and no detuning has direction zero. '
 'The directions are listed as one row of three components per segment, and those of such segments do not change when all rates of the control are scaled by a common positive factor.',
 ['inputs'],'all driven controls with N >= 1 segments, including very weak drives, mixed strong and weak segments, and undriven segments',
 'Tests look at one or two controls with rates near one; the failure modes are about relative scale (thresholds that depend on the units) and about undriven segments.',
 [DC],[('DrivenControl.directions',DC)],['DrivenControl.directions'])
p('C04','Plot export lists every segment in the requested coordinates and units',
 'Exporting a driven control for plotting gives one entry per segment, in order, each with that segment\'s duration: the x and y amplitudes for cartesian coordinates, or the complex value Rabi rate times exp(i azimuthal angle) for cylindrical coordinates, plus in both cases the detuning in absolute units, and nothing else. '
 'With dimensionless rates requested (the default), the x, y or complex Rabi values are divided by the control\'s maximum Rabi rate, or left as they are when the control has no Rabi drive at all; otherwise they are absolute. '
 'Any coordinate name other than the two supported ones raises the arguments error.',
 ['inputs','configurations'],'all driven controls with N >= 1 segments, both coordinate systems, both unit choices, any other coordinate string',
 'Tests check two fixed controls; scaling, ordering and the undriven case must hold for all controls.',
 [DC,UT],[('DrivenControl.export',DC)],['dictionary returned by DrivenControl.export'])
p('C05','File export can be read back to the same control',
 'Exporting a driven control to a file, in either file type and either coordinate system, writes a file from which the number of segments, every duration, every detuning and (multiplying by the maximum Rabi rate stated in the file) every drive value can be recovered in order, and which holds exactly the documented columns or keys. '
 'A JSON file also holds the control\'s name when it has one. '
 'An unsupported file format, file type or coordinate name raises the arguments error, and no file is created or changed.',
 ['inputs','configurations'],'all driven controls with N >= 1 segments with or without a name, {CSV, JSON} x {cartesian, cylindrical}, any unsupported option string',
 'Tests write one named control per combination and compare some columns; unnamed and undriven controls, long controls and rejected options are not covered.',
 [DC,UT],[('DrivenControl.export_to_file',DC),('_export_to_qctrl_expanded_format, _qctrl_expanded_export_content',DC)],['the written file'])
p('C06','Primitive, BB1, SK1, CORPSE and concatenated pulses follow their tables',
 'For a target rotation t about azimuthal angle f and maximum Rabi rate W, all segments are driven at W without detuning and have these (rotation, azimuth) pairs, in order: primitive (t,f); BB1 (t,f),(pi,f+p),(2pi,f+3p),(pi,f+p); SK1 (t,f),(2pi,f-p),(2pi,f+p); CORPSE (2pi+t/2-k,f),(2pi-2k,f+pi),(t/2-k,f); CORPSE in BB1 or in SK1 is BB1 or SK1 with its first segment replaced by the CORPSE segments; here p=arccos(-t/4pi) and k=arcsin(sin(t/2)/2). '
 'They are constructed for every W>0 and t>0 (up to t=4pi for the BB1 and SK1 families), carry the name given, and use azimuth zero when none is given. '
 'Outside that range (W<=0, t<=0, or t>4pi for the BB1 and SK1 families) the arguments error is raised.',
 ['inputs'],'all real t, f, W; all six constructors',
 'Tests check each table at one or two angles; a term that vanishes at the tested angle, or a domain limit, goes unnoticed.',
 [DP,DC],[('new_primitive_control, new_bb1_control, new_sk1_control, new_corpse_control, new_corpse_in_bb1_control, new_corpse_in_sk1_control',DP),('_get_transformed_rabi_rotation_wimperis, _validate_rabi_parameters',DP)],['segments of the returned control'])
p('C07','SCROFULOUS and WAMF1 pulses follow their tables for the supported angles',
 'For target rotation t of pi, pi/2 or pi/4 about azimuth f with maximum Rabi rate W: SCROFULOUS has segments (T1,f+p1),(pi,f+p2),(T1,f+p1) at W with T1 = 180, 115.2 or 96.7 degrees, p1=arccos(-pi cos(T1)/(2 T1 sin(t/2))) and p2=p1-arccos(-pi/(2 T1)), and CORPSE in SCROFULOUS replaces each of its segments by the CORPSE segments of the same rotation and azimuth. '
 'WAMF1 has four equally long segments with azimuth f and rotations a,b,b,a whose largest rate is W, where (a,b) is (pi,pi/2), pi(2.5+-0.65667825)/4 or pi(2.25+-0.36256159)/4. '
 'None has detuning, the name given is kept, and any W<=0 or t not within 1e-4 of a supported angle raises the arguments error.',
 ['inputs','configurations'],'t in {pi, pi/2, pi/4} with all real f and all W > 0; all other real t (outside a 1e-4 neighbourhood) and all W <= 0 rejected',
 'Tests check one azimuth and one rate per angle; the tables must hold for all azimuths and rates, and all other angles must be refused.',
 [DP,DC],[('new_scrofulous_control, new_corpse_in_scrofulous_control, new_wamf1_control',DP)],['segments of the returned control'])
p('C08','Predefined pulses perform the target rotation and cancel their documented error',
 'For every admissible target rotation, azimuth and maximum Rabi rate, the time-ordered product of the segment rotations of every predefined pulse equals the target rotation up to a global phase (SCROFULOUS and CORPSE in SCROFULOUS, whose angles are tabulated to four digits, to infidelity below 1e-5). '
 'A fractional error e in all Rabi rates changes the result of BB1, SK1, CORPSE in BB1 and CORPSE in SK1, and a constant detuning error e W changes the result of CORPSE, CORPSE in BB1, CORPSE in SK1 and WAMF1, only at second order in e (a distance from the target rotation that scales as e squared).',
 ['inputs'],'all t, f, W in the domains of the constructors, the limit e -> 0',
 'No test multiplies out the rotations; whether a table is a correct composite pulse is only visible in the net operation and its derivative.',
 [DP,DC],[('all new_*_control constructors for composite pulses',DP)],['product of segment unitaries of the returned control'])
p('C09','Modulated Gaussian controls have the stated envelope, bounds and net identity',
 'For every accepted request (maximum Rabi rate W, minimum segment duration m, duration D, modulation frequency v) the control has equal segments adding up to D and none shorter than m, no detuning, azimuths 0 or pi, and signed amplitudes along x proportional to the Gaussian of mean D/2 and width D/10 at the segment midpoints, times sin(2 pi v (time - D/2)) when v is not zero. '
 'No segment exceeds W; with modulation the largest one equals W and the signed rotation adds up to zero, and without modulation it adds up to the largest multiple of 2 pi available at W (one full turn at least). '
 'Requests with W<=0, m<=0, D<=m or W < sqrt(2 pi)/(0.1 D) raise the arguments error.',
 ['inputs'],'all real W, m, D, v for which some modulated sample is positive and, without modulation, at least a full turn is available at W',
 'Tests use two configurations with integer ratios; the envelope, bounds and net rotation must hold for every segment count.',
 [DP,DC],[('new_modulated_gaussian_control',DP)],['segments of the returned control'])
p('C10','Sequences accept exactly well-formed pulses and export them faithfully',
 'Constructing a dynamic decoupling sequence succeeds exactly when its duration is positive, every offset lies between zero and the duration inclusive, and the Rabi rotations, azimuthal angles and detuning rotations each have as many entries as the offsets; otherwise it raises the arguments error. '
 'The sequence then holds the given duration, values in order and name. '
 'Its plot export lists, per pulse in order with the pulse\'s offset, the complex value Rabi rotation times exp(i azimuthal angle) and the detuning rotation.',
 ['inputs'],'all one-dimensional finite real sequences of any lengths (including none), any duration, any name',
 'Tests build a few sequences and a few invalid ones; the boundary cases (offset exactly at 0 or the duration) and all length mismatches are a universal statement.',
 [DS,UT],[('DynamicDecouplingSequence.__init__, export',DS)],['attributes and export of DynamicDecouplingSequence','ArgumentsValueError'])
p('C11','Converting a sequence keeps every pulse at its time',
 'A driven control converted from a decoupling sequence lasts as long as the sequence (all times here hold up to the conversion\'s timing tolerance of 1e-8 of the sequence duration plus 1e-5 of the minimum segment duration per gap). '
 'Every pulse (rotation of at least 1e-7) appears as exactly one segment, in order, and its midpoint is the pulse\'s offset, except that a pulse at offset zero starts at time zero and a pulse at the end of the sequence ends there. '
 'Between, before and after the pulse segments there is nothing but undriven time.',
 ['inputs'],'all sequences of any length (including empty) whose conversion succeeds, all maximum rates and minimum segment durations',
 'Tests convert a few short sequences; timing errors that depend on the number, position (first, last, both) or kind of the pulses are not covered.',
 [DS,DC],[('convert_dds_to_driven_control',DS)],['times of the segments of the returned control'])
p('C12','Converted pulses perform the right rotation within the given limits',
 'In a converted sequence each pulse segment performs the pulse\'s rotation: a Rabi pulse has rate times duration equal to the rotation at the pulse\'s azimuthal angle and no detuning, a detuning pulse has detuning times duration equal to the signed detuning rotation and no Rabi rate. '
 'Its duration is the larger of the minimum segment duration and the rotation divided by the maximum (Rabi or detuning) rate, so that no segment exceeds the maximum Rabi rate or, in magnitude, the maximum detuning rate. '
 'Undriven segments last at least the minimum segment duration up to the timing tolerance, and the control carries the requested name.',
 ['inputs'],'all sequences of any length whose conversion succeeds (pulse rotations zero or at least 1e-7), all maximum rates and minimum segment durations',
 'Tests use X, Y and Z pi pulses with one choice of limits; sign of detunings, minimum-duration-limited pulses and mixed cases are not covered.',
 [DS,DC],[('convert_dds_to_driven_control',DS)],['segments of the returned control'])
p('C13','Conversion refuses exactly the sequences it cannot realise',
 'Conversion raises the arguments error when a maximum rate is not positive, the minimum segment duration is negative, a Rabi rotation is negative, one pulse has both a Rabi and a detuning rotation, the offsets are not strictly increasing, or two neighbouring pulses (or a pulse and the end of the sequence) leave a gap shorter than the minimum segment duration by more than the timing tolerance (1e-8 of the sequence duration plus 1e-5 of the minimum segment duration). '
 'It succeeds in every other case in which all gaps are at least the minimum segment duration; an end pulse is judged after being moved inside the sequence.',
 ['inputs'],'all sequences of any length, all rates and minimum segment durations (real numbers); gaps are judged where every rotation is zero or at least 1e-7',
 'Tests cover one overlap and a few invalid arguments; sign and scale of the values and position of the conflict matter.',
 [DS,UT],[('convert_dds_to_driven_control',DS),('_check_valid_operation',DS)],['ArgumentsValueError or successful return'])
p('C14','Predefined sequences place their pulses at the textbook times',
 'For every duration T>0 and count n>=1 the predefined sequences hold exactly these pi pulses: Ramsey none; spin echo X at T/2; Carr-Purcell X and CPMG Y at T(i-1/2)/n; Uhrig Y at T sin^2(pi i/(2n+2)); periodic X at T i/(n+1), each for i=1..n in order. '
 'The quadratic sequence with m inner and n outer pulses has X pulses at the n Uhrig times of T and, in each of the n+1 intervals between them, m Z pulses at the Uhrig times of that interval, in time order. '
 'The sequence has duration T and the name given, and T<=0 or a count below one raises the arguments error.',
 ['inputs'],'all real T, all integers n and m',
 'Tests check a few small counts; the closed forms must hold for every count.',
 [SP,DS],[('new_ramsey_sequence ... new_quadratic_sequence',SP),('_carr_purcell_meiboom_gill_offsets, _uhrig_single_axis_offsets',SP)],['pulses of the returned sequence'])
p('C15','Walsh sequences pulse exactly at the sign changes of the Walsh function',
 'For every Paley order from 1 to 2000 and every duration T>0, the Walsh sequence consists of X pi pulses at exactly the interior times, in order, at which the Paley-ordered Walsh function of that order (stretched over T) changes sign. '
 'It has duration T and the name given. '
 'An order outside 1 to 2000 or a duration that is not positive raises the arguments error.',
 ['inputs','configurations'],'all 2000 orders, all real T',
 'Tests check a few orders (at most 20 or so); the construction depends on the binary digits of the order and on sampling a product of square waves.',
 [SP,DS],[('new_walsh_sequence',SP)],['pulses of the returned sequence'])
p('C16','Concatenated sequences follow the recursive definition at every order',
 'The X-concatenated sequence of order l consists of what remains after cancelling pairs of coincident X pulses in the recursion C(l) = C(l-1) X C(l-1) X over equal spacings T/2^l, without the pulse at the very end. '
 'The XY-concatenated sequence of order l is C(l) = C(l-1) X C(l-1) Y C(l-1) X C(l-1) Y over spacings T/4^l, with coincident pulses multiplied (X Y gives Z, equal pulses cancel), in time order. '
 'All are pi pulses within the duration T>0, the name given is kept, and T<=0 or an order below one raises the arguments error.',
 ['inputs','configurations'],'every order l >= 1, all real T',
 'Tests check orders up to 3 (X) and 2 (XY) at one duration; the recursion must be right at every order and the pulses inside the sequence for every duration.',
 [SP,DS],[('new_x_concatenated_sequence, new_xy_concatenated_sequence',SP),('_concatenation_x, _concatenation_xy',SP)],['pulses of the returned sequence'])
p('C17','Pre- and post-rotations wrap the sequence and restore the population',
 'Asking any predefined sequence for pre- and post-rotations gives the same sequence with exactly two pulses added: a pi/2 rotation about +x at time zero, first, and a pi/2 rotation about +x or -x at the end, last. '
 'The product of all pulses of the resulting sequence, in order, is the identity or a Z rotation by pi up to a global phase. '
 'Without the request no pulses are added.',
 ['inputs','configurations'],'all ten constructors, all durations, counts and orders',
 'Tests look at fixed counts with one parity each; the final axis depends on the parities of the numbers of X, Y and Z pulses.',
 [SP],[('_add_pre_post_rotations',SP),('new_ramsey_sequence',SP)],['pulses of the returned sequence'])
p('C18','Reading, printing, exporting and converting never change inputs or objects',
 'Constructing controls and sequences, reading any property, printing, exporting and converting leave every array, list and dictionary passed in and every existing control or sequence unchanged. '
 'Repeating any of these operations on the same object gives the same result, also after the caller modifies an array or dictionary that a previous read or export returned as a derived value. '
 'Two objects built separately from separate inputs do not affect each other.',
 ['inputs','histories'],'all driven controls and sequences with at least one segment or pulse, all public operations, all orders of calls',
 'Tests use fresh objects per call and do not compare inputs afterwards; aliasing between inputs, objects and results is never examined.',
 [DC,DS,SP,DP],[('np.asarray in the constructors',DC),('convert_dds_to_driven_control',DS)],['state of inputs and objects before and after each public call'])
p('C19','Argument errors carry the description and every offending value',
 'The arguments error raised by the package keeps the description, the arguments and the extras it was given, is an exception of the package\'s base error type, and its message (also its text when printed) is the description followed by one line "name=representation" per argument and then per extra, in order. '
 'The argument check does nothing when its condition is true, and raises this error with exactly the given description, arguments and extras when it is false.',
 ['inputs'],'all descriptions, all dictionaries of arguments and extras (including none), all conditions',
 'Tests only check that the error is raised, never what it carries.',
 [EX,UT],[('ArgumentsValueError',EX),('check_arguments',UT)],['attributes and text of the raised error'])
p('C20','Text representations list every value so that it can be recovered',
 'The printed text of a control or sequence has, in order, its name followed by a colon when it has one, the total duration line for a sequence, and one line per stored quantity of the form "Label = [v1,v2,...] x scale" in which each value times the scale (with pi standing for the number) is the stored value of that segment or pulse, in order. '
 'The representation is the class name followed, in parentheses, by every constructor argument as name=representation.',
 ['inputs'],'all controls and sequences with at least one segment or pulse, with or without a name; quantities of any sign, including all zero',
 'Tests compare the text of one or two objects; scale factors that are zero or negative are not covered.',
 [DC,DS,UT],[('DrivenControl.__str__, __repr__',DC),('DynamicDecouplingSequence.__str__, __repr__',DS),('create_repr_from_attributes',UT)],['str() and repr() of the objects'])
p('C21','Exporting a sequence to a file equals converting it and exporting the control',
 'Exporting a decoupling sequence to a file with given maximum rates writes the same file content as converting it to a driven control with those rates, no minimum segment duration and the sequence\'s name, and exporting that control with the same file format, file type and coordinates. '
 'When the conversion or the option names are invalid, the arguments error is raised and no file is created or changed.',
 ['inputs','configurations'],'all sequences, all rates, all option strings',
 'Tests export two sequences with default rates; forwarding of each option is not checked independently.',
 [DS,DC],[('DynamicDecouplingSequence.export_to_file',DS)],['the written file'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
