"""What each check builds, how many cases it runs in each build, and what its evidence means."""
CHECKS = {}
def check(pid, src, variants, rule, assumptions=(), **kw):
    CHECKS[pid] = dict(src=src, variants=variants, rule=rule, assumptions=list(assumptions), **kw)

check("C03", ["c03.cpp", "c03a.cpp", "c03b.cpp"], [("asan", 150000, 3000000), ("rel", 800000, 20000000)],
      "seeded random (type pair, direction, image shape and storage, kernel width/origin/weights, border rule, routine); non-trivial when at least one output pixel was compared with the definition; distinct by image content, kernel and configuration",
      ["sums fit the library's accumulator type (the generator bounds them)", "floating-point tolerance: eps*(4+2n)*sum|w*v|"],
      require=["large.images", "images.above.2^24.pixels", "conv.full", "conv.naive", "conv.inner", "conv.border", "conv.naive.divided", "conv.inner.divided", "kernel.larger", "kernel.equal", "origin.asymmetric", "pixels.checked"])

check("C04", ["c04.cpp"], [("asan", 200000, 4000000), ("rel", 800000, 20000000)],
      "seeded random (type, direction or both, shape and storage, kernel width/origin/weights, routine); non-trivial: output compared with the weighted average; distinct by image, kernel and configuration",
      ["weights used at any pixel do not sum to zero", "sums fit the accumulator type", "floating-point tolerance from the condition of the quotient"],
      require=["large.images", "images.above.2^24.pixels", "full", "naive", "border", "kernel.larger", "kernel.equal", "origin.asymmetric", "weights.mixed", "weights.exceed.pixel.type", "range.checked", "dir.both", "constant.images"])
check("C24", ["c24.cpp"], [("asan", 40000, 1000000), ("rel", 100000, 4000000)],
      "seeded random (rule, type, shape, storage); every coordinate within two periods of small images is read; non-trivial: all; distinct by content and configuration",
      ["coordinates below 2^30"], require=["large.images", "reads.outside", "reads.far", "small.images.exhaustive", "image.switched", "unknown.rules"])
check("C05", ["c05.cpp"], [("asan", 100000, 2000000), ("rel", 300000, 8000000)],
      "seeded random (mean in both or one direction / Gaussian, type, shape and storage, radius or sigma and width); non-trivial: all; distinct by image and parameters",
      ["integer averages use the library's rounding (sum+n/2)/n", "floating-point tolerance scaled with image size for running sums", "finite pixel values"],
      require=["large.images", "images.above.2^24.pixels", "mean", "mean-horizontal", "mean-vertical", "gaussian.width.derived", "gaussian.sigma.derived", "gaussian.both.given", "radius.exceeds.both", "radius.exceeds.width", "radius.exceeds.height", "window.equals.dimension", "constant.checked", "gaussian.kernel.larger"])
check("C14", ["c14.cpp"], [("asan", 150000, 3000000), ("rel", 600000, 20000000)],
      "seeded random (factory, element type, sigma/width, 1D/2D); non-trivial: all; distinct by parameters and content",
      ["sigma of at least 0.08, so that the density does not vanish", "an entry whose quotient lies within 1e-9 of an integer may be truncated either way"],
      require=["gaussian1D", "gaussian2D", "gaussian.width.derived", "gaussian2D.width.derived", "gaussian.sigma.derived", "gaussian.both", "even.width", "flat", "normalize1", "normalize2", "float_to_int", "float_to_int.tiny", "float_to_int.huge", "random.kernels", "rules"])
check("C06", ["c06.cpp"], [("asan", 20000, 400000), ("rel", 60000, 2000000)],
      "every binary image of 20 shapes up to 4x4 under both rules (32 per case), then seeded random patterns (noise, rings, spirals, combs, curves, checkerboards) of any shape and storage through one reused finder; non-trivial: all; distinct by images",
      ["input pixels are 0 or 1"], require=["more.than.65536.blobs", "contour.of.more.than.65536.points", "more.than.65536.holes", "large.images", "enumerated.small.images", "rule.4", "rule.8", "with.holes", "several.blobs", "same.size.again", "limits.set"])
check("C07", ["c07.cpp"], [("asan", 15000, 300000), ("rel", 50000, 1500000)],
      "as C06, with contour limits and internal contours on or off; every stored contour is compared with an independent walk and boundary set",
      ["input pixels are 0 or 1", "a contour exactly as long as the maximum may be kept or left empty (the documentation is not explicit)"],
      require=["more.than.65536.blobs", "contour.of.more.than.65536.points", "more.than.65536.holes", "large.images", "enumerated.small.images", "rule.4", "rule.8", "external.checked", "internal.checked", "external.discarded", "internal.discarded", "inner.off", "pixels.passed.twice", "contours.over.several.blocks"])
check("C08", ["c08.cpp"], [("asan", 100000, 2000000), ("rel", 400000, 10000000)],
      "seeded random histograms (dense, sparse, one or two values, mirrored, Gaussian mixtures, 1..70000 bins) and images (type, value range, shape, storage), for both variants, tunings and scales; the criterion is evaluated at every split; non-trivial: all; distinct by content and parameters",
      ["pixels lie in the declared range", "splits whose variance equals the maximum up to double rounding are all accepted"],
      require=["large.images", "otsu", "otsu2", "ties", "single.class", "tuned", "scaled", "images", "negative.minimum", "positive.minimum", "one.value.range", "plain.constructor"])
check("C09", ["c09.cpp"], [("asan", 80000, 1500000), ("rel", 300000, 8000000)],
      "seeded random (fixed threshold / Otsu filter / local mean, type, values, threshold at or next to pixel values and extremes, region width, scale, shape and storage); non-trivial: all; distinct by content and parameters",
      ["region width of at least 2 pixels", "local-mean pixels closer to the threshold than single-precision rounding are not judged"],
      require=["large.images", "images.above.2^24.pixels", "fixed", "pixels.equal.to.threshold", "whole.type.range", "otsu.filter", "otsu.negative", "otsu.positive", "local", "local.exact", "region.larger.than.image", "relative.width"])
check("C10", ["c10.cpp"], [("asan", 60000, 1000000), ("rel", 200000, 5000000)],
      "seeded random (mean / Otsu / min-max, type, image shape and storage, block size fixed or relative, local or own block, direction, scale, tuning, spread); grid, statistics and decisions are recomputed independently; non-trivial: all; distinct by content and parameters",
      ["the sum over a block fits the accumulator and the scaled mean fits the pixel type", "block Otsu: pixel values 0..255", "pixels closer to a threshold than rounding (single precision; one unit for averages of negative integers) are not judged"],
      require=["large.images", "mean", "otsu", "minmax", "local", "own.block", "single.row.or.column.of.blocks", "remainder.columns", "remainder.rows", "relative.block", "spread.disabled", "textureless.blocks", "mean.negative.values", "minmax.negative.values", "otsu.tuned", "filter.reused"])
check("C11", ["c11.cpp"], [("asan", 20000, 1000000), ("rel", 200000, 5000000)],
      "seeded random operation histories (start, push, remove, clear, write, read, refused requests) for six element types and block sizes 1..3000, compared with a list of lists after every step; repeated histories with allocation accounting; distinct by history",
      [], require=["vast.set", "operations", "full.comparisons", "remove.tail", "clear", "write.set", "refused", "sets.spanning.blocks", "several.blocks", "repetitions", "huge.set", "many.sets"])
check("C12", ["c12.cpp"], [("asan", 80000, 2000000), ("rel", 600000, 15000000)],
      "seeded random operation histories over up to six live arrays (seven element types) or ten live kernels (four types), compared with plain vectors after every step, all memory followed until freed; distinct by history",
      ["kernel entries whose absolute value is representable"],
      require=["huge.arrays", "wide.kernels.1d", "wide.kernels.2d", "long.histories", "operations", "created", "wrapped", "wrapped.refused", "wrapped.copied", "regrow.within.capacity", "grow.beyond.capacity", "nonzero.fill", "assigned", "copy.constructed", "bounds.refused", "default.changed", "destroyed", "leak.checked", "kernel.copied", "kernel.by.value", "kernel.assigned", "kernel.reshaped"])
check("C13", ["c13.cpp"], [("asan", 80000, 1500000), ("rel", 600000, 15000000)],
      "seeded random operation histories (create, wrap, reshape, write, view, copy, assign, pass by value, crop, refused requests, destroy) over up to seven live gray, interleaved or planar images; a model of shared pixel buffers is compared with every live image after each step and all memory is followed until freed; distinct by history",
      ["views are destroyed before their owner is reshaped, reassigned or destroyed (documented)", "copies between views that overlap partly are not made"],
      require=["huge.images", "wide.images", "long.histories", "created", "wrapped", "subimage", "subimage.of.view", "copy.constructed", "view.copied", "assigned", "assigned.view", "assigned.into.view", "view.assign.refused", "view.reshape.refused", "view.copy.refused", "copied", "copied.with.view", "passed.by.value", "refusals", "cropped.owner", "cropped.view", "self.assigned", "bands.changed", "written.through.view", "leak.checked", "ragged.refused", "destroyed"])
check("C15", ["c15.cpp"], [("asan", 600000, 15000000), ("rel", 5000000, 100000000)],
      "seeded random (statistic / histogram / fill / border fill / random fill / band average, type, value range, shape and storage); non-trivial: all; distinct by content and parameters",
      ["statistics other than sums and histograms: images with at least one pixel", "histogram: pixels lie in the range of the bins", "integer means are truncated", "integer sums fit the accumulator"],
      require=["large.images", "images.above.2^24.pixels", "statistics", "all.negative", "views", "histogram", "histogram.negative", "histogram.repeated", "fill", "fill.border", "border.covers.image", "fill.uniform", "fill.interleaved", "interleaved.views", "convert", "convert.negative"])
check("C16", ["c16.cpp"], [("asan", 300000, 6000000), ("rel", 1500000, 40000000)],
      "every binary image of 16 shapes with at most 12 pixels, then seeded random pairs of binary images of any shape and storage: pointwise definition, output aliasing an input, containment, duality, monotonicity, distribution, repeated erosion; non-trivial: all; distinct by images",
      ["pixels are 0 or 1", "duality is judged away from the image edge"], require=["large.images", "enumerated.small.images", "logic", "morphology", "duality.monotone", "distributive", "output.is.input", "output.is.both.inputs", "no.inner.region", "empty", "repeated.erosion", "elongated.large"])
check("C21", ["c21.cpp"], [("asan", 300000, 10000000), ("rel", 3000000, 100000000)],
      "16 seeded random length settings (boundaries, halves, negative parts) or pairs of points (type, extremes, equal points) per case; non-trivial: all; distinct by values",
      ["squared distances fit the result type"], require=["fixed", "relative", "negative", "half", "integer", "rejected", "valid", "minimum.applies", "distances", "equal.points", "unsigned.points", "far.apart"])
check("C19", ["c19.cpp", "nofault.cpp"], [("asan", 60000, 1500000), ("rel", 200000, 6000000), ("jvm", 40000, 1500000)],
      "seeded random calls of every native method through a simulated Java virtual machine (arrays copied or pinned, plain, reshaped and sub-images, all kernels, borders and parameters, several images per native object), compared bit for bit with the C++ operation on stand-alone images; unsupported image, kernel, output and border types; then calls of the Java API in eight real virtual machines (`jvm/Driver.java`, threads sharing the installed instances, collections at random points), recorded and compared bit for bit offline; non-trivial: all; distinct by images and parameters",
      ["stand-ins with the public fields and methods used here take the place of the BoofCV, ddogleg and georegression classes, which are not installed", "Java objects have the fields the native code looks up (a type shares its array type only with a type of the same size)", "thresholds given as double lie in the range of the pixel type"], jni=True,
      require=["long.histories", "large.images", "images.in.one.array", "arrays.copied", "arrays.pinned", "threshold.images", "NativeGlobalFixed", "NativeGlobalOtsu", "NativeLocalMean", "NativeBlockMean", "NativeBlockMinMax", "NativeBlockOtsu", "NativeImageBlurOps.nativeMean", "NativeImageBlurOps.nativeGaussian", "NativeConvolveImage.nativeHorizontal", "NativeConvolveImage.nativeVertical", "NativeConvolveImage.nativeConvolve", "NativeImageConvolveNormalized.nativehorizontal", "NativeImageConvolveNormalized.nativevertical", "border.1", "border.3", "border.4", "border.5", "chang.images", "chang.several.blocks", "chang.large", "unsupported.type", "unsupported.border", "both.rejected", "kernel.array.longer"])
check("C20", ["c20.cpp", "newfault.cpp"], [("asan", 120000, 3000000), ("rel", 200000, 8000000), ("jvmx", 24000, 800000)],
      "seeded random histories of native calls through a simulated Java virtual machine that enforces the JNI rules: operations that fail (shapes, parameters, null arrays, unknown borders), C++ allocations that fail at a chosen point, JNI calls that fail at a chosen point, creation, use and destruction of native objects in any order; every call is audited for arrays held, references, pending exceptions, escaping C++ exceptions and native memory; non-trivial: all; distinct by images, parameters and faults",
      ["stand-ins take the place of the BoofCV classes in the real virtual machine", "Java objects have the fields the native code looks up and kernels have data", "native memory is followed in the address-sanitized build"], jni=True,
      require=["long.histories", "large.images", "arrays.copied", "arrays.pinned", "fault.allocation", "fault.jni", "failing.operation", "java.exceptions", "leak.checks", "objects.created", "objects.destroyed", "destroyed.without.object", "used.without.object", "null.data", "shape.mismatch", "bad.border", "bad.kernel offset", "bad.output shape", "bad.null data", "bad.radius", "bad.sigma", "bad.storage shape", "bad.kernel array", "settings", "chang.process", "object.survives.failure", "contours.received", "jvm.forgotten.objects.held.memory"]+["jvm.forgotten."+k for k in ("threshold0", "threshold1", "threshold2", "threshold3", "threshold4", "threshold5", "chang", "stateless")])
OPS = ["ops.cpp", "ops_a.cpp", "ops_a2.cpp", "ops_a3.cpp", "ops_b.cpp", "ops_b2.cpp", "ops_c.cpp", "ops_c2.cpp"]
IMAGE_OPS = ["binary.and", "binary.dilate", "binary.erode", "binary.or", "blur.gaussian", "blur.mean", "blur.mean.horizontal", "blur.mean.vertical", "border.read", "contour.label", "contour.label.again", "convert.average", "convolve.2d", "convolve.horizontal", "convolve.vertical", "copy", "copy.views", "divided.2d", "divided.horizontal", "divided.vertical", "fill", "fill.border", "fill.interleaved", "fill.uniform", "filter.block.mean", "filter.block.minmax", "filter.block.otsu", "filter.fixed", "filter.local", "filter.otsu", "histogram", "normalized.both", "normalized.horizontal", "normalized.vertical", "print", "set.interleaved", "statistics", "threshold.fixed", "threshold.local", "threshold.otsu"]
ALL_OPS = IMAGE_OPS + ["kernel", "otsu.histogram", "packed.sets"]
PRE = ["binary images hold 0 and 1; histogram pixels lie in the range of the bins; block Otsu pixels 0..255; weights used by a normalised convolution do not cancel; sums fit the accumulator", "images below 2^31 pixels"]
check("C01", ["c01.cpp", "newfill.cpp"] + OPS, [("asan", 300000, 6000000), ("clang", 150000, 4000000), ("vg", 40000, 600000), ("rel", 600000, 15000000)],
      "seeded random (operation out of a registry of every public image operation and type, legal parameters, shape including empty, one pixel wide and very elongated, storage of each image), run under address and undefined-behaviour sanitizers of two compilers, under memcheck, and twice with different contents of fresh memory; non-trivial: all; distinct by operation, content and parameters",
      PRE, require=ALL_OPS + ["empty.images", "one.pixel.wide.or.tall", "very.elongated", "compared.with.other.fill"])
check("C02", ["c02.cpp"] + OPS, [("asan", 300000, 6000000), ("rel", 1500000, 30000000)],
      "seeded random (operation of the registry, content, parameters, storage of every input, output and workspace: owner, reshaped owner, wrapped buffer, sub-image, sub-image of a sub-image); result compared bit for bit with plain images, inputs and everything around output views compared with a snapshot; non-trivial when at least one image is a view; distinct by operation, content and parameters",
      PRE, require=["large.images"] + IMAGE_OPS + ["with.views", "parts.of.one.image"] + [a + "." + k for a in ("in", "out", "ws") for k in ("owner", "reused-owner", "wrapped", "sub", "subsub")])
check("C17", ["c17.cpp"] + OPS, [("asan", 120000, 3000000), ("rel", 600000, 15000000)],
      "seeded random histories of 3 to 10 operations (also refused ones and repetitions) over one pool of objects, outputs, workspaces and inputs, every result compared bit for bit with fresh objects and storage; non-trivial when something was reused; distinct by history",
      PRE, require=["long.histories", "large.images"] + ALL_OPS + ["same.call.again", "calls.with.reused.storage", "calls.with.reused.object", "failed.calls"])
check("C18", ["c18.cpp"] + OPS, [("tsan", 24000, 500000), ("rel", 60000, 2000000)],
      "2 to 6 threads run one to three operations of the registry at the same time on shared inputs, kernels and border objects, each with its own output (mostly side-by-side tiles of one parent), workspace and object; ThreadSanitizer watches every access and each result is compared bit for bit with the sequential one; non-trivial when executions overlapped; states: distinct orders of starts and ends per operation",
      PRE + ["each thread uses its own filter objects, outputs and workspaces"], require=["large.images"] + ALL_OPS + ["cases.with.overlap", "outputs.are.tiles", "all.threads.share.inputs", "failing.calls", "threads.2", "threads.6"], procs=3, limit=150)
check("C22", ["c22.cpp"] + OPS, [("asan", 200000, 6000000), ("rel", 900000, 30000000), ("clang", 100000, 3000000)],
      "seeded random invalid requests: every operation of the registry with illegal parameters, or with an output or workspace view of the wrong shape, alone and in histories on a used object and used images; shape mismatches, out-of-range elements, ragged lists, fixed-size views and wrapped arrays, kernel origins, sets, unknown borders; each must throw a std::exception, leave every input, output, workspace, view and object as it was, leak nothing, and let the next legal request give the stand-alone result; non-trivial: all; distinct by request and content",
      PRE + ["a workspace view of the wrong shape may be discovered after the output has been reshaped"],
      require=["large.images", "refused", "object.used.before", "object.used.after", "leak.checks", "operation.binary.and", "operation.binary.dilate", "operation.binary.erode", "operation.binary.or", "operation.blur.gaussian", "operation.blur.mean", "operation.contour.label", "operation.contour.label.again", "operation.convert.average", "operation.convolve.2d", "operation.convolve.horizontal", "operation.convolve.vertical", "operation.copy", "operation.filter.block.mean", "operation.filter.block.minmax", "operation.filter.block.otsu", "operation.filter.fixed", "operation.filter.local", "operation.filter.otsu", "operation.normalized.both", "operation.output.view", "operation.parameters", "operation.set.interleaved", "operation.threshold.fixed", "operation.threshold.local", "operation.workspace.view", "refused.array.at", "refused.array.wrapped.assign", "refused.array.wrapped.grow", "refused.array.wrapped.resize", "refused.array.wrapped.set", "refused.array.wrapped.setTo", "refused.blur.radius", "refused.blur.sigma", "refused.border.unknown", "refused.gray.at.x", "refused.gray.at.y", "refused.gray.ragged", "refused.gray.sub.reversed", "refused.gray.sub.x", "refused.gray.sub.y", "refused.gray.view.assign", "refused.gray.view.copy", "refused.gray.view.reshape", "refused.interleaved.at.band", "refused.interleaved.at.x", "refused.interleaved.at.y", "refused.interleaved.sub", "refused.interleaved.sub.reversed", "refused.interleaved.view.assign", "refused.interleaved.view.bands", "refused.interleaved.view.reshape", "refused.interleaved.view.set", "refused.kernel.at.1d", "refused.kernel.at.2d", "refused.kernel.list.origin.1d", "refused.kernel.list.origin.2d", "refused.kernel.list.ragged", "refused.kernel.origin.1d", "refused.kernel.origin.2d", "refused.kernel.reshape.1d", "refused.kernel.reshape.2d", "refused.kernel.sigma", "refused.kernel.sigma.from.radius", "refused.kernel.width.zero", "refused.length.invalid", "refused.planar.at.band", "refused.planar.at.x", "refused.planar.at.y", "refused.planar.band", "refused.sets.at.element", "refused.sets.at.set", "refused.sets.load", "refused.sets.write.set", "refused.sets.write.size", "refused.shape.and", "refused.shape.block.mean", "refused.shape.block.minmax", "refused.shape.block.otsu", "refused.shape.mean.horizontal", "refused.shape.mean.vertical", "refused.shape.normalized.horizontal", "refused.shape.normalized.vertical", "refused.shape.or"])
check("C23", ["c23.cpp", "newfault.cpp"] + OPS, [("asan", 16000, 1000000), ("rel", 150000, 4000000)],
      "cycles: two to six operations of the registry (some refused) repeated four to six times over one pool of objects, outputs and workspaces, memory held, buffers and allocation counts compared between repetitions and everything freed at the end; faults: every allocation inside an operation fails in turn, then the call is repeated; containers: histories of reshape, assignment, copy and growth with failing allocations; capacity: shapes that fit are not reallocated; non-trivial: all; distinct by operations, content and parameters",
      PRE + ["memory held is followed in the address-sanitized build"], require=ALL_OPS + ["leak.checks", "repetitions", "failing.operations", "faults.injected", "faults.exhausted", "container.faults", "containers", "capacity.checked"])
check("C25", [], [("loader", 24000, 600000)],
      "seeded random installations: libraries (copies of one that records its own loading) in a subset of the places a loader call may look at, among decoys, as files, as class path resources and in a jar; streams that deliver their bytes in any portions or fail; fresh virtual machines that initialise BoofCPP; what was loaded is read back from the record of the library itself; non-trivial: all; distinct by arrangement",
      ["a library file that is present is one the platform can load (otherwise the platform's error is reported)", "one thread loads at a time", "stand-ins take the place of the BoofCV classes"],
      require=["local.loaded", "local.absent", "decoys", "resource.loaded", "resource.absent", "resource.no.library", "relative.refused", "jar.entries", "copy.compared", "copy.stream.error", "copy.target.refused", "init.nothing", "init.from.jar", "init.from.file", "init.no.temporary.directory"])
check("C26", ["c26.cpp"], [("asan", 60000, 1500000), ("rel", 300000, 8000000)],
      "seeded random (image, kernel or pair of images, type, extreme values, shape and storage); what is printed is captured and read back; non-trivial: all; distinct by content",
      ["differences: pixel differences fit the pixel type, no NaN"], require=["large.images", "images", "empty", "kernels.1d", "kernels.2d", "differences", "refused"])
