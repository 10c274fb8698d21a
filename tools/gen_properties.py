#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, qtext, why, files, mech, observe, over=("inputs",), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=None)))

p("C01", "Matrix inversion returns a true inverse, or nothing for singular input",
  "Inverting a 3x3 matrix, by either of the two inversion routines and in either precision, returns a matrix that is the inverse of the input on both sides. No result is returned only when the matrix is singular (determinant zero to working precision), and a singular matrix never yields a result.",
  "all 3x3 matrices with finite entries of ordinary magnitude, every zero/sign pattern and pivot order, f32 and f64",
  "The tests invert a couple of colour matrices; the affine shortcut, the pivoting branches and the singular exits depend on entry signs, zeros and relative sizes that those never take.",
  ["src/math.rs"], [("general and affine cofactor inverse", "src/math.rs Matrix33::inverse"), ("Gauss-Jordan with pivoting", "src/math.rs Matrix33::gj_inverse")],
  ["return value of the two inversion methods"])
p("C02", "3x3 matrix algebra: products compose, transpose and determinant are right",
  "Multiplying two matrices and then applying the result to a colour (XYZ or RGB) equals applying them one after the other; the identity is neutral, transposition swaps rows and columns and reverses products, the determinant is the usual one. Scalar operations and negation act on every entry, row/column indexing addresses the entry it names (for reading and writing), and narrowing to single precision converts every entry in place.",
  "all matrices, vectors, scalars; f32 and f64", "Tests multiply a few specific colour matrices; a swapped or dropped index can vanish on symmetric, diagonal or near-identity data.",
  ["src/math.rs"], [("operator impls", "src/math.rs impl Mul/Add/Sub/Div/Neg/Index/IndexMut for Matrix33"), ("transposed, determinant", "src/math.rs")],
  ["results of matrix operators"])
p("C03", "Chromatic adaptation maps source white to destination white",
  "For each of the three adaptation methods (Bradford, von Kries, CAT02) and any two white points, the returned matrix sends the source white to the destination white and is a pure per-cone scaling in that method's published cone space. Adapting between identical whites is exactly the identity, adapting there and back cancels, and adapting via an intermediate white equals adapting directly (von Kries: up to the seven published digits of its inverse).",
  "all pairs/triples of white points with positive cone responses, f32 and f64, given as XYZ or as chromaticity", "Tests never call two of the methods directly and only ever adapt between a few standard illuminants.",
  ["src/chromatic_adaptation.rs"], [("cone matrix, diagonal scaling", "src/chromatic_adaptation.rs bradford/von_kries/cat02")], ["returned matrices"])
p("C04", "A colour space built from primaries and white reproduces them",
  "A colour space built from red, green, blue and white chromaticities has mutually inverse XYZ-to-RGB and RGB-to-XYZ matrices; its white at unit luminance maps to RGB (1,1,1) and each primary's chromaticity maps to that channel alone. Its stored primaries, white point and transfer functions are exactly the ones supplied, also when the matrices are supplied explicitly.",
  "all non-degenerate primaries and whites (y nonzero, non-collinear), any transfer functions, f32 and f64", "Tests construct a handful of standard spaces and compare printed matrices.",
  ["src/color_space_rgb.rs", "src/math.rs"], [("primary/white to matrix derivation", "src/color_space_rgb.rs build_xyz_to_rgb_matrix, ColorSpaceRGB::new"), ("explicit matrices", "ColorSpaceRGB::new_with_specified_matrices")], ["public fields of the colour space", "encode/decode"])
p("C05", "Every built-in colour space is self-consistent in both precisions",
  "For every built-in colour space the stated chromaticities are the published ones, the two matrices invert each other, the stated white maps to (1,1,1) and each stated primary maps to its own channel, all within the rounding of the published tables. Decoding undoes encoding for every colour with components between 0 and 1, and the single- and double-precision definitions of a space agree in chromaticities, matrices and transfer functions.",
  "all built-in spaces, all colours in [0,1]^3, both precisions", "Tests compare sRGB-like spaces on 24 chart colours in one precision; the other tables and twins are never cross-checked.",
  ["src/color_space_rgb.rs"], [("built-in definitions", "src/color_space_rgb.rs model_f64, model_f32")], ["public statics, encode, decode"], over=("inputs", "configurations"))
p("C06", "Transfer functions follow their published curves and invert each other",
  "The sRGB, BT.709, BT.2020 and ALEXA LogC encodings equal their published piecewise definitions for every input, on each channel separately, and the linear pair is the identity. Each decoding undoes its encoding on [0,1] and on negative values in the linear toe to within the published rounding of the constants, and both directions are non-decreasing up to that rounding at the junctions.",
  "all real inputs for the curve definition; all x in the linear toe and [0,1] for inversion and monotonicity; f32 and f64", "Tests evaluate 24 chart colours; the piecewise junctions, negatives and the f32 instantiations are not sampled.",
  ["src/color_space_rgb.rs"], [("piecewise curves", "src/color_space_rgb.rs encode::*, decode::*")], ["transfer function results"])
p("C07", "RGB/XYZ conversions round-trip and slice conversions match single ones",
  "Converting linear RGB of a space to XYZ (with any white) and back with the matching matrices returns the original colour, with XYZ on the 0-100 scale, and a colour-space conversion matrix equals going through adapted XYZ. Converting a slice of XYZ gives, element by element and in order, the single-colour result; converting a slice between RGB spaces decodes, converts and encodes each pixel, writes and returns exactly the shorter length, and leaves the remaining outputs untouched.",
  "all colours, whites and colour spaces (arbitrary matrices and transfer functions); all slice lengths, equal or not", "Tests convert the 24 chart patches between fixed spaces with equal-length slices.",
  ["src/transform.rs"], [("conversion matrices and slice loops", "src/transform.rs")], ["returned colours, counts, output slices"])
p("C08", "The SIMD planar XYZ-to-RGB path equals the scalar path for every length",
  "Converting planar X, Y, Z arrays with the SIMD routine gives, for every array length and every element, the same RGB as the scalar conversion, whatever the lane width. It never reads or writes outside the arrays it was given, also when the three input lengths differ.",
  "all input values, matrices, array lengths (including non-multiples of the lane width and unequal lengths), lane widths of each supported instruction set", "The only test uses exactly 24 elements, a multiple of the lane width, and is not even compiled in the default build.",
  ["src/transform.rs"], [("lane loop and scalar remainder", "src/transform.rs xyz_slice_to_rgb_avx_planes")], ["returned planes"], over=("inputs", "configurations"))
p("C09", "xyY chromaticity and XYZ conversions are inverse",
  "Converting xyY to XYZ and back, or XYZ to xyY and back, returns the original value, with XYZ on the 0-100 scale and Y on the 0-1 scale. The chromaticity of a colour does not depend on its scale, a chromaticity given without luminance means unit luminance, and luminance normalisation preserves chromaticity while setting luminance to 1 or 100 as documented.",
  "all colours with nonzero y and nonzero sum, f32 and f64", "Tests only convert a few illuminants.",
  ["src/chromaticity.rs", "src/xyz.rs"], [("conversions", "src/chromaticity.rs XYY::from_xyz; src/xyz.rs XYZ::from_chromaticity, from_xy, normalized, normalized_y")], ["converted values"])
p("C10", "Lab and XYZ conversions are inverse and white is L=100, a=b=0",
  "Converting XYZ to Lab follows the CIE definition relative to the given white, for tristimulus values on both sides of the linear/cube-root junction and for negative ones, so the white itself is (100,0,0), black is (0,0,0) and lightness does not decrease with luminance. Converting to Lab and back, or from Lab and back, with the same white returns the original colour.",
  "all colours, all whites with positive components, f32 and f64", "The test samples a grid of Lab values for one white in one direction and one precision.",
  ["src/lab.rs"], [("piecewise f and its inverse", "src/lab.rs xyz_to_lab, lab_to_xyz")], ["converted values"])
p("C11", "The 1976 colour difference is a metric",
  "The 1976 colour difference is the Euclidean distance in Lab: never negative, zero exactly for equal colours, symmetric, obeying the triangle inequality and unchanged when both colours are shifted by the same amount.",
  "all pairs and triples of Lab colours, f32 and f64", "No test calls it.", ["src/lab.rs"], [("distance formula", "src/lab.rs delta_E_1976")], ["returned difference"])
p("C12", "The CIEDE2000 difference equals the published formula for every pair",
  "The CIEDE2000 difference equals the published formula (Sharma et al.) for every pair of Lab colours, including greys, hues on either side of the 0/360 wrap and hue differences above 180 degrees. It is symmetric, zero for equal colours, and for colours of ordinary Lab range always a non-negative number, never a NaN.",
  "all pairs of Lab colours of ordinary magnitude in every hue quadrant combination, achromatic ones included, f32 and f64", "14 published pairs in f32, all at L=50, rounded to four places: lightness weighting and many hue branches are never exercised.",
  ["src/lab.rs"], [("CIEDE2000 steps", "src/lab.rs delta_E_2000")], ["returned difference"])
p("C13", "Quantising to 8 and 16 bits is total, nearest, monotone and reversible",
  "Converting a floating-point colour to 8 or 16 bits per channel clamps to [0,1] and rounds to the nearest level, channel by channel, for every input: values below 0 and -infinity give 0, above 1 and +infinity give the maximum, NaN gives 0, and nothing panics. Converting integer levels to floating point divides by the maximum level, so integer to float to integer is the identity, and larger inputs never give smaller levels.",
  "every f32 and f64 bit pattern; every u8/u16 level", "Tests convert a few chart colours with in-range values.",
  ["src/rgb.rs", "src/math.rs"], [("clamp, scale, round, cast", "src/rgb.rs From impls"), ("clamp", "src/math.rs clamp")], ["converted values"])
p("C14", "RGB and XYZ arithmetic acts on each component independently",
  "Addition, subtraction, multiplication, division, negation, absolute value, power, summation, and mixing with a scalar on either side act on each component of an RGB or XYZ value separately with the ordinary meaning of the operator and operand order. Component access by index addresses the component it names (and panics past the third), the constants zero/one/min/max fill every component, and clamping, lerp, largest component, normalisation, (approximate) equality and being zero mean what their names say.",
  "all component values, all index values, f32 and f64", "Arithmetic impls have no direct tests; a swapped component is invisible on grey test data.",
  ["src/rgb.rs", "src/xyz.rs", "src/math.rs"], [("operator impls", "src/rgb.rs, src/xyz.rs"), ("hmax, normalize, clamprgb, lerp, clamp", "src/rgb.rs, src/math.rs")], ["operator results"])
p("C15", "A spectral distribution's reported shape describes its samples",
  "However a varying-length spectral distribution is built (from samples, pairs, a constant, a value list, or by scaling another one), its reported start and end are its first and last wavelengths, it reports a uniform interval exactly when all neighbouring samples are that far apart, and the samples are the ones supplied, in order. Shapes (and linspace) enumerate evenly spaced wavelengths from the start up to the end; fewer than two samples, or a value list that does not fit its shape, is rejected by a panic. Two spectra are equal (or approximately equal) exactly when all their samples are.",
  "all sample lists (any length, any spacing, any gap position that differs), values and shapes", "Tests build evenly spaced lists only.",
  ["src/vspd.rs"], [("shape inference", "src/vspd.rs calculate_shape, calculate_interval"), ("constructors", "src/vspd.rs VSPD::new, constant, from_values, FromIterator, Mul, Div")],
  ["shape(), start(), end(), interval(), samples()"], state=[("shape", "cached description of samples", "src/vspd.rs VSPD")])
p("C16", "Resampling a spectrum yields the requested grid and keeps known samples",
  "Interpolating gives samples at the requested interval from the later of the two starts to the earlier of the two ends, equal to the source wherever the grid hits a source sample; extrapolating keeps all samples and pads with the first and last value at the spectrum's own interval; aligning (to a grid that overlaps the source range) gives samples exactly on the requested grid, interpolated inside the source range and extended by the nearest grid sample outside it. Trimming keeps exactly the samples within bounds and rejects bounds that leave none by a panic. The result's reported shape always describes its samples, and each operation is linear in the sample values.",
  "all sample values; grids commensurate with the source interval, wider, narrower, shifted or partly overlapping", "Tests use one six-sample ramp and compare against hand-made lists.",
  ["src/vspd.rs", "src/interpolation.rs"], [("resampling", "src/vspd.rs interpolate, extrapolate, align, trim")], ["samples and shape of the result"], over=("inputs", "configurations"))
p("C17", "Interpolators pass through samples and reproduce the curves they promise",
  "The linear interpolator returns the sample value at every sample, the straight line in between and the end values outside. The Sprague interpolator passes through every sample and never distorts a constant; on uniformly spaced data it reproduces straight lines everywhere and, from six samples on, any cubic away from the two boundary segments at each end, whose missing neighbours are extended with the published (CIE 167) coefficients so that value and slope are continuous across samples. Both precisions of the interpolators agree.",
  "all sample values (two or more), all query positions in range including sample positions and both ends", "One query on one ramp is tested.",
  ["src/interpolation.rs"], [("Sprague coefficients and segment search", "src/interpolation.rs InterpolatorSprague"), ("linear", "InterpolatorLinear"), ("constant extension", "ExtrapolatorConstant")], ["evaluate results"])
p("C18", "Spectrum to XYZ is linear and gives Y=100 for the perfect diffuser",
  "Converting a reflectance spectrum to XYZ is linear in the spectrum and independent of the illuminant's overall scale. A reflectance of one at every wavelength gives Y = 100 and the illuminant's own white (for the tabulated illuminants the listed one, to table accuracy) regardless of the sampling interval, and spectra sampled at 1, 5 or 10 nm, at any other interval or unevenly, describe the same colour to within sampling accuracy.",
  "all reflectance values, illuminants and sampling grids (interval and range)", "Tests convert 24 measured charts sampled on one 10 nm grid and one 5 nm uplift, under D65.",
  ["src/vspd.rs", "src/cmf.rs", "src/illuminant.rs"], [("integration path", "src/vspd.rs spd_to_xyz_integration"), ("ASTM E308 weights", "src/vspd.rs tristimulus_weighting_factors_astme2022, adjust_...")], ["returned XYZ"], over=("inputs", "configurations"))
p("C19", "The fixed-size spectrum type is linear and its fast paths agree",
  "Converting a fixed-size spectrum to XYZ is the weighted sum of all its samples with the tabulated weights, hence linear; every implementation of the conversion (scalar or vector) gives the same result, and a reflectance of one everywhere gives Y = 100 and the D65 white to table accuracy. Multiplying two spectra multiplies every sample, the constant constructor fills every sample, and two spectra are equal exactly when all samples are equal.",
  "all 40-sample spectra", "Tests convert chart data with a loose tolerance; the vector path is not compiled in the default test build.",
  ["src/spd.rs"], [("Kahan-summed dot products", "src/spd.rs spd_to_xyz_scalar"), ("AVX dot products", "src/spd.rs spd_to_xyz_avx, avx sum helper"), ("weights", "src/spd.rs W_X W_Y W_Z")], ["to_xyz, operators"], over=("inputs", "configurations"))
p("C20", "Uplifting RGB to a spectrum is linear and reproduces the colour",
  "Uplifting an RGB colour gives, on the basis' own wavelength grid, the channel-weighted sum of the three basis spectra, so it is linear, black gives the zero spectrum and white gives a flat unit reflectance to table accuracy. Converting the uplifted spectrum of any linear sRGB colour back to sRGB under D65 returns that colour to within a few thousandths of its largest component.",
  "all linear RGB colours", "The test prints 24 chart colours and asserts nothing.",
  ["src/uplifting.rs", "src/vspd.rs"], [("basis combination", "src/uplifting.rs uplift_my, my_basis")], ["returned spectrum"])
p("C21", "Daylight chromaticity: defined exactly on 4000-25000 K and on the locus",
  "Asking for the chromaticity of a D illuminant succeeds exactly for temperatures from 4000 K to 25000 K inclusive and reports an error for anything else, including NaN and infinities. The result has unit luminance, lies on the CIE daylight locus given by the published polynomials of each temperature branch, and x decreases steadily with temperature across the 7000 K junction up to the published rounding.",
  "every temperature value, f32 and f64", "Two temperatures are printed, nothing is asserted.",
  ["src/illuminant.rs"], [("piecewise polynomial", "src/illuminant.rs xy::cct")], ["returned chromaticity or error"])
p("C22", "Reinterpreting a component slice as colours is exact and in bounds",
  "Viewing a flat slice of components as a slice of colours gives length/3 colours whose components are the original ones in order, over the same memory with nothing added or dropped. A length that is not a multiple of three is rejected by a panic, whatever the element type.",
  "all slice lengths and contents, for 8-bit, f32 and f64 components", "No test calls it.", ["src/rgb.rs"], [("unsafe reinterpretation", "src/rgb.rs RGBf::cast_slice, RGBu8::cast_slice")], ["returned slice"])
p("C23", "Photometric luminance is linear and counts every sample of the spectrum",
  "The luminance of a uniformly sampled spectrum that overlaps the tabulated luminous efficiency is 683 times the mean over its own samples of its values weighted by the luminous efficiency at each sample's wavelength (beyond the table: the efficiency at the spectrum's outermost sample inside it). It is therefore linear in the spectrum, zero for a zero spectrum, and non-negative for non-negative spectra inside the tabulated range.",
  "all spectral values; sampling grids inside and beyond the tabulated range", "No test calls it.", ["src/photometry.rs", "src/vspd.rs"], [("aligned dot product", "src/photometry.rs spd_to_nit")], ["returned value"], over=("inputs", "configurations"))
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
