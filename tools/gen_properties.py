#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the property texts change)."""
import json, os
P=[]
B="boofcpp/src/boofcv/"
J="boofcpp-jni/src/main/cpp/"
JJ="boofcpp-jni/src/main/java/org/boofcpp/"
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

prop("C01","Every image operation is memory safe and free of undefined behaviour",
 "Every public image operation, on images of any shape (one pixel wide or tall, shorter or narrower than the kernel, block or radius, elongated, empty where the operation accepts it), of any pixel type and for any legal parameter, reads and writes only inside the images it was given and its own storage. It performs no other undefined behaviour (division by zero, signed overflow for values in range, use of freed or uninitialised memory) and it always terminates.",
 ["inputs","configurations"],"All operations x all image shapes x storage layouts x legal parameters.",
 "The unit tests use a few fixed shapes (typically 13x8 or 100x120) in ordinary builds, where an out-of-bounds access by a few elements is silent.",
 [B+"convolve.h",B+"image_blur.h",B+"binary_ops.h",B+"binary_ops.cpp",B+"threshold_block_filters.h",B+"contour.cpp",B+"image_misc_ops.h",B+"image_border.h"],
 [("raw pointer and index loops","all operation headers"),("choice between naive and optimised paths by kernel size","ConvolveImage / ConvolveNormalized / ConvolveImageMean"),("padded copy with a border ring","LinearContourLabelChang2004::process")],
 ["AddressSanitizer/UBSan reports","process termination"])
prop("C02","Operations treat a sub-image exactly like a stand-alone image",
 "An operation applied to views (sub-images with any offset and row stride, wrapped external buffers, images reshaped inside a larger allocation) gives exactly the result it gives on stand-alone images of the same content, whatever surrounds the views. It changes only pixels inside the image it writes to: pixels around the output view, and every pixel, surrounding and shape of its inputs, keep their values.",
 ["inputs","configurations"],"All operations x combinations of storage layout (owner, reused owner, wrapped buffer, nested sub-image) for each input, output and workspace.",
 "Tests convert a few images to sub-images once per operation and mostly compare inside the view; they do not observe writes outside it or dependence on surrounding pixels.",
 [B+"image_types.h",B+"image_misc_ops.h",B+"image_statistics.h",B+"convolve.h",B+"image_blur.h",B+"binary_ops.cpp",B+"threshold_block_filters.h",B+"contour.cpp"],
 [("offset + y*stride + x addressing","every operation"),("subimage flag","Gray / Interleaved")],
 ["pixels of the output view","guard pixels around every view","input buffers before and after"])
prop("C03","Convolution equals its mathematical definition for every border rule",
 "Convolving an image horizontally, vertically or in 2D with any kernel (any width, any origin inside the kernel, also wider than the image) writes to every output pixel the sum over kernel entries of weight times the pixel at the shifted position, with positions outside the image given by the selected border rule (extended, reflected, wrapped or a fixed value). Integer results are exact and floating-point results are within rounding; the naive, optimised-inner and optimised-border routines agree wherever each is defined, and the divided variants return the rounded quotient.",
 ["inputs","configurations"],"All pixel types x border rules x kernel widths and origins x image shapes.",
 "Tests compare the optimised code with the naive code on two or three kernel sizes with symmetric origins, so an error that is shared, or shows only for an asymmetric origin, a kernel about the size of the image or a specific unrolled width, is not seen.",
 [B+"convolve.h",B+"image_border.h",B+"convolve_kernels.h"],
 [("inner/border split","ConvolveImage, ConvolveImage_Inner, ConvolveImage_Border"),("fallback","ConvolveNaive")],
 ["every output pixel"])
prop("C04","Normalised convolution is the kernel-weighted average of the pixels in the image",
 "Normalised convolution writes to every output pixel the weighted sum of the pixels the kernel covers inside the image divided by the sum of the weights used (rounded for integers), horizontally, vertically or both in sequence, for any kernel whose used weights do not sum to zero, any origin and any image shape including images smaller than the kernel. Consequently a constant image is left unchanged and, with non-negative weights, results stay between the smallest and largest input pixel (for integer images: of non-negative pixels, the rounding of negative sums being toward zero).",
 ["inputs","configurations"],"All pixel types x kernel widths, origins and weights (larger than the pixel type's range too) x image shapes.",
 "Tests use one or two image sizes and small weights and compare two implementations with each other; the small-image path with weights that do not fit the pixel type is never run.",
 [B+"convolve.h"],
 [("inner/just-border split","ConvolveNormalized, ConvolveNormalized_JustBorder"),("fallback for small images","ConvolveNormalizedNaive")],
 ["every output pixel","output range"])
prop("C05","Mean and Gaussian blur compute the box and Gaussian average everywhere",
 "Mean blur with any radius, including radii larger than either image dimension, writes at each pixel the (rounded) average first over the row window and then over the column window, where a window is the part of the box inside the image. Gaussian blur equals normalised convolution in both directions with the Gaussian kernel of the requested sigma or width, a missing one being derived from the other; both preserve constant images and the range of the input (for integer images: of non-negative pixels).",
 ["inputs","configurations"],"All pixel types x image shapes x radii / sigma and width combinations.",
 "Tests use two radii on one landscape image; running sums drifting, and images shorter than the window while wider than it, are not sampled.",
 [B+"image_blur.h",B+"convolve.h",B+"convolve_kernels.h"],
 [("running sum","ConvolveImageMean::inner_horizontal / inner_vertical"),("border and fallback","ConvolveNormalized_JustBorder, ConvolveNormalizedNaive")],
 ["every output pixel","intermediate one-direction results"])
prop("C06","Blob labelling equals connected components",
 "Labelling a binary image gives zero to every background pixel and gives two foreground pixels the same label if and only if they are connected under the selected 4- or 8-neighbour rule; labels are 1..N without gaps, numbered in raster order of each blob's first pixel, and N equals the number of blobs reported. The input image is not modified.",
 ["inputs"],"All binary images of any shape and storage layout, both connectivity rules, and switching between them.",
 "Tests use a handful of hand-drawn patterns; one-pass contour-following labelling fails on specific local configurations (spirals, nested holes, diagonal contacts, objects on the image edge).",
 [B+"contour.h",B+"contour.cpp"],
 [("one-pass labelling","LinearContourLabelChang2004::process, handleStep1/2/3"),("tracing writes labels and marks visited background","ContourTracer")],
 ["label image","list of blobs"])
prop("C07","Traced contours are exactly the boundaries of each blob and its holes",
 "For every blob the external contour is a closed walk over pixels of that blob, moving between neighbours under the rule, that starts at its first pixel in raster order, follows the blob's outer boundary and encloses all of it; every hole has exactly one internal contour, made of blob pixels that border that hole. Contours whose length is under the minimum or over the maximum, and internal contours when they are not wanted, are left empty without disturbing labels, the number of contours or the other contours.",
 ["inputs","configurations"],"All binary images x connectivity rule x contour size limits x internal-contour saving on or off.",
 "Tests check the contours of four fixed drawings and only the count of points for most of them.",
 [B+"contour.h",B+"contour.cpp",B+"packed_sets.h"],
 [("Moore-style tracing","ContourTracer::trace, searchBlack4/8, moveToNext"),("size limits","LinearContourLabelChang2004::handleStep1/2")],
 ["contour point lists","label image"])
prop("C08","Otsu threshold maximises the between-class variance",
 "The automatic global threshold computed for an image with pixel values in a declared range is a pixel value that splits the image into two classes with the largest possible between-class variance (the variant returns the midpoint between the means of such a split), for any minimum value of the range, so shifting all pixels and the range shifts the threshold equally. The histogram it is based on counts every pixel exactly once, and the tuning and scale parameters modify the threshold as documented.",
 ["inputs"],"All histograms, pixel types, value ranges (also not starting at zero) and image views.",
 "Tests check two synthetic histograms and value ranges starting at zero.",
 [B+"binary_ops.h",B+"binary_ops.cpp",B+"image_statistics.h"],
 [("histogram scan","ComputeOtsu::computeOtsu / computeOtsu2 / compute"),("range translation","ThresholdOps::computeOtsu, ImageStatistics::histogram")],
 ["returned threshold and variance","histogram counts"])
prop("C09","Global and local-mean thresholding classify every pixel correctly",
 "Thresholding with a fixed or Otsu threshold sets each output pixel to 1 exactly when the input pixel is at or below the threshold (down) and to 1 exactly when it is above it (up), so the two directions are complements; the local-mean filter compares with the mean of the square neighbourhood of the requested width in the same way, the scale multiplying the mean (down) or the pixel (up). Outputs are only ever 0 or 1, have the input's shape, and raising a fixed threshold never clears a pixel set by the down direction.",
 ["inputs","configurations"],"All pixel types, thresholds, directions, region widths (fixed or relative), scales and image shapes.",
 "Tests compare a few random images with one setting; equality at the threshold, extreme values and small images are not sampled.",
 [B+"binary_ops.h",B+"image_blur.h",B+"config_types.cpp"],
 [("threshold loops","ThresholdOps::threshold, ThresholdOps::localMean"),("filters","GlobalFixedBinaryFilter, GlobalOtsuBinaryFilter, LocalMeanBinaryFilter")],
 ["every output pixel"])
prop("C10","Block threshold filters decide every pixel from its block neighbourhood",
 "The block mean, block Otsu and block min-max filters partition the whole image into a grid of blocks close to the requested size (the last row and column absorbing the remainder), compute each block's statistic from exactly that block's pixels, and decide every pixel of a block from the statistics of that block alone or of the 3x3 blocks around it, as configured. Every output pixel is written and is 0 or 1, textureless regions get the default value according to the minimum spread (which can be disabled), and the result depends only on the image and the settings.",
 ["inputs","configurations"],"All pixel types, image shapes, block sizes (fixed or relative), local/non-local, direction, scale, tuning and spread settings.",
 "Tests use one or two image sizes and check the block helper routines in isolation; grid remainders, one-row or one-column grids and negative values are not sampled.",
 [B+"threshold_block_filters.h",B+"binary_ops.cpp",B+"config_types.cpp"],
 [("grid selection","ThresholdBlockCommon::selectBlockSize / process / computeStatistics"),("per-filter statistics and decision","ThresholdBlockMean, ThresholdBlockOtsu, ThresholdBlockMinMax")],
 ["every output pixel"])
prop("C11","The packed set container behaves as a list of lists",
 "After any sequence of starting sets, pushing elements, removing the last set, clearing and overwriting sets, for any block size, reading any element or set returns exactly what a plain list of lists would hold, with the same number of sets and sizes. Loading a set appends its elements in order, sets that span several internal blocks are intact, and storage is reused rather than growing when the same history is repeated. A copied or assigned container holds the same sets and from then on neither one affects the other.",
 ["histories","configurations"],"All operation sequences x block sizes x element types.",
 "Tests perform a few pushes with one block size and never interleave removal, clearing and reuse across block boundaries.",
 [B+"packed_sets.h"],
 [("block addressing","PackedSet::push_tail, _add_element, at, load_set, write_set"),("tail bookkeeping","PackedSet::start_new_set, remove_tail, clear")],
 ["element and set reads"],[("set_info/_total_element","sets and used elements","PackedSet")])
prop("C12","Growable arrays and kernels behave as vectors with independent copies",
 "After any sequence of resize, grow, fill, set, assign, copy and element writes, a growable array holds exactly what a plain vector would: resizing keeps the old elements and gives every new element the array's default value, filling sets every element to the value, bounds-checked access fails exactly outside the size, and an array that wraps external memory refuses to be resized. Copies of arrays and kernels are independent of the original, and a kernel's width, origin, sum and extreme elements always agree with its contents.",
 ["histories"],"All operation sequences x element types x initial construction.",
 "Tests resize and fill byte-sized or zero values once; multi-byte non-zero fills, shrink-then-grow and copy lifetimes are not sampled.",
 [B+"base_types.h",B+"convolve_kernels.h"],
 [("storage management","GrowArray::resize, grow_array, fill, set, setTo, operator="),("kernel containers","KernelBase, Kernel1D, Kernel2D")],
 ["element reads","sizes","allocation events"])
prop("C13","Image containers own, alias and copy their pixels consistently",
 "After any history of creation, reshape, element writes, copy, assignment, taking sub-images and destruction of gray, planar and interleaved images, every image has the shape last requested and the pixels last written: copies are deep, sub-images alias exactly the requested rectangle of their parent, bounds-checked access accepts exactly the coordinates inside the image, and shape queries report the true shape. No memory is freed twice, used after being freed or leaked when images are copied, assigned, passed by value or destroyed.",
 ["histories"],"All sequences of container operations over several live images, including views of views and reshapes to smaller and larger sizes.",
 "Tests exercise each container method once on a fresh image.",
 [B+"image_types.h"],
 [("ownership flag and buffers","Gray, Planar, Interleaved"),("view arithmetic","makeSubimage, at, index_of")],
 ["pixel reads","shape queries","sanitizer reports","allocation events"])
prop("C14","Kernel factories produce the kernels they promise",
 "A Gaussian kernel has the requested width (or the width derived from sigma), its origin at the centre, is symmetric, decreases away from the centre, follows the Gaussian density of the requested or derived sigma and, in floating point, its entries sum to one; integer kernels are the floating-point kernel scaled by a single factor, chosen so that the smallest entry (or the stated fraction of the largest entry, if that is more) becomes one, and truncated. Mean and table kernels are flat with sum one (floating point) or all ones, and two-dimensional kernels are the product of the one-dimensional ones.",
 ["inputs"],"All widths, sigmas, element types and 1D/2D kernels.",
 "Tests check two or three widths with tolerance on the sum only.",
 [B+"convolve_kernels.h"],
 [("factories","FactoryKernel::gaussian1D, gaussian2D, mean1D, table1D, normalize, float_to_int"),("defaults","sigmaForRadius, radiusForSigma")],
 ["kernel contents"])
prop("C15","Image statistics, fills and conversions agree with a pixel-by-pixel definition",
 "Minimum, maximum, sum, mean and histogram of an image equal the values obtained by visiting each pixel of the image once, for every pixel type including negative values and for views; filling an image or its border writes exactly the stated pixels with the stated value, random fills stay in the requested range, and averaging the bands of a colour image gives the mean of each pixel's bands.",
 ["inputs"],"All pixel types, value ranges, image shapes and views, border radii, band counts.",
 "Tests use positive values and whole images, so sign handling and view handling are not observed.",
 [B+"image_statistics.h",B+"image_misc_ops.h",B+"image_convert.h"],
 [("reductions","ImageStatistics"),("fills","ImageMiscOps"),("band average","convert_average")],
 ["returned values","pixels inside and outside the written area"])
prop("C16","Binary logic and morphology obey set algebra",
 "On images of zeros and ones, 'and' and 'or' are the pixelwise logical operations (also when the output is one of the inputs), erosion keeps a pixel exactly when it and its four neighbours are set, and dilation sets a pixel exactly when it or one of its four neighbours is set, pixels outside the image counting as zero. Therefore erosion is contained in the image which is contained in the dilation, the two are dual under complement away from the image edge, and they are monotone and commute with and/or as set operations do.",
 ["inputs"],"All binary images, shapes from 3x3 up, storage layouts and in-place use of the logic operations.",
 "Tests check one random image per operation.",
 [B+"binary_ops.cpp",B+"binary_ops.h"],
 [("logic loops","BinaryImageOps::logicAnd / logicOr"),("morphology","BinaryImageOps::erode4 / dilate4")],
 ["every interior output pixel"])
prop("C17","Results never depend on what an object was used for before",
 "Filters, contour finders, thresholding objects, output images and workspaces can be reused any number of times with images of other sizes and content: each call gives the same result as a freshly created object with fresh storage, and repeating a call gives the same result again, as does a copy of the object, whatever the process computed before. Configuration changes between calls take effect completely and leave no trace of the earlier configuration.",
 ["histories"],"All histories of calls on one object with varying image sizes, contents, outputs, workspaces and settings.",
 "Tests use a fresh object, or at most the same object on the same image size.",
 [B+"contour.cpp",B+"threshold_block_filters.h",B+"binary_ops.h",B+"image_blur.h",B+"image_types.h"],
 [("recycled buffers","border, packedPoints, contours, stats, histogram, storage1/2"),("reshape without clearing","Gray::reshape / Interleaved::reshape")],
 ["outputs of each call in a history"])
prop("C18","Concurrent use on separate outputs is race free and gives sequential results",
 "Threads may run any operations at the same time on shared read-only input images, kernels and histograms and shared or adjacent views of one parent image as outputs, provided each uses its own output, workspace and filter objects: there is no data race and each thread obtains exactly the result of running alone.",
 ["schedules"],"All interleavings of concurrent calls with shared inputs, kernels, parents of views and separate outputs.",
 "All tests are single threaded; hidden shared state such as a static scratch buffer is invisible to them.",
 [B+"convolve.h",B+"image_blur.h",B+"binary_ops.cpp",B+"contour.cpp",B+"threshold_block_filters.h",B+"convolve_kernels.h"],
 [("no global mutable state","all operations"),("no writes outside the output view","all operations")],
 ["ThreadSanitizer reports","per-thread results"])
prop("C19","Calls from Java give the same pixels as the C++ library",
 "Every operation of the Java API and every native entry point behind it, called with Java images of any supported data type, shape, offset and stride, kernels and border objects, from one thread or from several at once, writes into the Java output image the same pixels as the corresponding C++ operation on the same data and leaves the inputs and surrounding array elements unchanged. Types, borders and outputs that are not supported are refused rather than processed as something else. Blob and contour lists returned to Java are complete and in the same order as in C++.",
 ["inputs","configurations"],"All Java methods and native methods x data types x image shapes and layouts x parameters x threads sharing the installed implementations.",
 "The Java tests need BoofCV and a JVM, are not run with the C++ tests and compare whole images only.",
 [J+"JNIBoofCPP.cpp",J+"JNIBoofCPP.h",J+"NativeChang2004.cpp",J+"NativeImageConvolve.cpp",J+"NativeImageConvolveNormalized.cpp",J+"NativeImageBlurOps.cpp",J+"NativeGlobalFixed.cpp",J+"NativeGlobalOtsu.cpp",J+"NativeLocalMean.cpp",J+"NativeBlockMean.cpp",J+"NativeBlockMinMax.cpp",J+"NativeBlockOtsu.cpp",JJ+"BoofCPP.java",JJ+"NativeBase.java",JJ+"convolve/NativeConvolveImage.java",JJ+"convolve/NativeImageBlurOps.java",JJ+"threshold/NativeThresholdBase.java",JJ+"contour/NativeChang2004.java"],
 [("image wrapping","extractInfo*, wrapCopy*"),("dispatch on data type","per entry point"),("declaration of types, reshaping of outputs, border and kernel checks","NativeBase, NativeConvolveImage and the other Java wrappers")],
 ["Java-side arrays and fields before and after a native call"])
prop("C20","Native calls honour JNI resource rules on every path",
 "On every path through a native method, including failures of the wrapped operation, each Java array obtained is released exactly once, no other Java call is made while a critical array is held, no exception leaves the native code as a C++ exception, every failure (of the operation, of an allocation or of a JNI call) is reported to Java as an exception, and nothing native is leaked. Native objects are created once, used only while alive and destroyed once, on request or when the Java object is collected; using one that is gone raises a Java exception.",
 ["inputs","fault_sequences","histories"],"All native methods x success and failure of the wrapped operation x object life cycles.",
 "A missing or doubled release is silent on most JVMs and no test makes the wrapped operation fail.",
 [J+"JNIBoofCPP.cpp",J+"JNIBoofCPP.h",J+"NativeChang2004.cpp",J+"NativeImageConvolve.cpp",J+"NativeImageConvolveNormalized.cpp",J+"NativeImageBlurOps.cpp",J+"NativeGlobalFixed.cpp",J+"NativeGlobalOtsu.cpp",J+"NativeLocalMean.cpp",J+"NativeBlockMean.cpp",J+"NativeBlockMinMax.cpp",J+"NativeBlockOtsu.cpp",JJ+"NativeBase.java",JJ+"convolve/NativeConvolveImage.java",JJ+"convolve/NativeImageBlurOps.java",JJ+"threshold/NativeThresholdBase.java",JJ+"contour/NativeChang2004.java"],
 [("critical array get/release","ImageAndInfo and entry points"),("error translation","try/catch in entry points")],
 ["sequence of JNI calls made","native allocations"])
prop("C21","Length settings and point distances resolve as documented",
 "A length setting given in pixels resolves to that length whatever the image size; a relative one resolves to its fraction of the size but never below its minimum; integer resolution rounds to nearest and reports negative lengths as -1, and invalid settings are rejected by validation exactly when both parts are negative. The squared distance between two points is exact, symmetric, non-negative and zero only for equal points.",
 ["inputs"],"All lengths, fractions, minimums, total sizes; all points of the integer and floating types within range.",
 "Tests check three or four hand-picked values.",
 [B+"config_types.cpp",B+"config_types.h",B+"geometry_types.h"],
 [("resolution","ConfigLength::compute, computeI, checkValidity"),("distance","Point2D::distanceSq")],
 ["returned values"])
prop("C22","Invalid requests are rejected cleanly",
 "A request that violates a documented precondition (mismatched image shapes, reshaping a view, coordinates, bands, sets or bounds out of range, a kernel origin outside the kernel, ragged initialiser rows, a block larger than the image or of zero size, a zero blur radius, an unknown border rule or unsuitable sigma) is reported by an exception. The inputs, outputs, containers, views and filters involved keep their previous state (an output the caller owns may have been reshaped when it is a workspace view, not an argument, that is refused) and remain usable, and nothing is leaked.",
 ["inputs","histories"],"All documented preconditions x object states; requests repeated and interleaved with valid ones.",
 "Tests check that two or three exceptions are thrown, not that state survives or memory is released.",
 [B+"image_types.h",B+"sanity_checks.cpp",B+"base_types.h",B+"packed_sets.h",B+"convolve_kernels.h",B+"image_blur.h",B+"threshold_block_filters.h",B+"image_border.h"],
 [("argument checks","throw std::invalid_argument sites")],
 ["exception or not","object state after a rejected request","allocation events"])
prop("C23","No operation leaks memory and steady use needs no more memory",
 "Every byte the library allocates is freed once the objects involved are destroyed, for any sequence of operations, including assignments between views and owners and operations that fail. Repeating the same work with the same objects, outputs and workspaces reaches a steady state in which the memory held does not grow and buffers that are already large enough are not reallocated. An operation which fails for lack of memory leaves every object involved usable and consistent.",
 ["histories"],"All operation histories, repeated; images growing and shrinking.",
 "Unit tests run in a process that exits; lost buffers and unbounded growth are invisible to them.",
 [B+"image_types.h",B+"base_types.h",B+"packed_sets.h",B+"contour.cpp",B+"threshold_block_filters.h"],
 [("ownership and reuse of buffers","reshape, resize, grow_array, PackedSet blocks")],
 ["allocation and release events"])
prop("C24","Border accessors map every coordinate to the right pixel",
 "Reading an image through a border rule returns the image pixel for every coordinate inside the image and, at any distance outside it, the pixel selected by the rule: nearest edge pixel (extended), mirror image without repeating the edge (reflected), periodic repetition (wrapped), or the fixed value. It never reads outside the image, even one row or column images, and reflects changes of the underlying image at once.",
 ["inputs"],"All border rules, pixel types, image shapes from 1x1 and integer coordinates within several periods.",
 "Tests read a few coordinates within one image size of the border.",
 [B+"image_border.h"],
 [("coordinate adjustment","ImageBorderExtend / Reflect / Wrap::adjust"),("dispatch","ImageBorder::get, FactoryImageBorder")],
 ["returned pixel values"])
JV="boofcpp-jni/src/main/java/"
prop("C25","The Java loader finds, loads and installs the right native library",
 "NativeUtils.loadLocalPath loads the library file of the set name (lib<name>.so, else .dll, else .dylib) from exactly the given directory, NativeUtils.loadLibraryFromJar loads a byte-exact copy of such a resource below exactly the given absolute path and leaves no copy behind whether or not loading succeeds, both return false and load nothing when there is none, and NativeUtils.copy writes exactly the bytes its stream delivers, reports the stream's error and closes both ends. Initialising the class BoofCPP loads exactly one library, the first present in the library path, build/boofcpp-jni, ../build/boofcpp-jni, and the resource directories /, /arm64-v8a and /armeabi-v7a, and neither raises nor loads anything, but says so, when there is none. BoofCPP.initialize then installs the native implementation of every operation it covers, and the temporary directory is empty again once the virtual machine has ended.",
 ["inputs","configurations","fault_sequences"],"All library names, directory and class path contents, paths with or without a trailing slash, and streams with any portions or failing at any byte.",
 "No test loads a library; on a developer's machine the first place looked at always succeeds, so the other places and the temporary copies are never exercised.",
 [JV+"cz/adamh/utils/NativeUtils.java",JV+"org/boofcpp/BoofCPP.java"],
 [("search and copy","NativeUtils.loadLocalPath / loadLibraryFromJar / copy"),("order and hooks","BoofCPP static initialiser and initialize")],
 ["loads recorded by the library itself (JNI_OnLoad)","files left in temporary and source directories","stream closes and open descriptors"])
prop("C26","Printed images, kernels and differences show exactly the contents",
 "print writes the width and height of an image and then, one line per row, every pixel in order: integers as hexadecimal numbers equal to the pixel at any magnitude, floating point numbers rounded to five significant digits; print_kernel writes every weight of a kernel in order and for two-dimensional kernels its width and origin. print_difference marks with X exactly the pixels whose values differ by more than the tolerance and with - all others, and refuses images of different shape without output. None of them changes what it prints, whatever the element type and memory layout.",
 ["inputs","configurations"],"All element types (8 to 64 bit integers, both floating point types), sizes including empty ones, owner images and sub-image views, any pixel values and tolerances.",
 "The functions are diagnostics no test looks at; wrong varargs types or row addressing show only for particular element types, views and magnitudes.",
 ["boofcpp/src/boofcv/print_structures.h"],
 [("images","print(Gray)"),("kernels","print_kernel(Kernel1D/Kernel2D)"),("differences","print_difference")],
 ["bytes written to the standard output","image and kernel contents before and after"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p["title"])<=80,p["id"]
    import re
    n=len(re.findall(r"[.!?](?:\s|$)",p["statement"]))
    assert n<=3,(p["id"],n)
print(len(P))
