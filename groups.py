"""Which harness decides which property, and how it is built."""
import glob
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

OPS = ['ops_cpu.cpp', 'ops_simd.cpp', 'ops_pool.cpp', 'ops_generic.cpp', 'ops_ref.cpp', 'ops_break.cpp']



def prepare_math(group, directory, repo):
    """Lines must be comparable: a comparison which does not compile is reported as a violation, not as a failed build."""
    source = os.path.join(directory, 'compare.cpp')
    with open(source, 'w') as f:
        f.write('#include "math/math_base.h"\nbool same( const LineBase2D<double> & a, const LineBase2D<double> & b ) { return a == b; }\n')
    r = subprocess.run(['g++', '-std=gnu++17', '-w', '-fsyntax-only', '-I' + os.path.join(repo, 'src'), source], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        group['flags'] = group.get('flags', []) + ['-DPBT_NO_LINE_COMPARISON']


def prepare_python(group, directory, repo):
    """The wrapper of the Python module is made by swig from the interface file of the working tree."""
    wrapper = os.path.join(directory, 'penguinv_wrapper.cpp')
    interface = os.path.join(repo, 'src', 'python', 'penguinV.i')
    subprocess.run(['swig', '-c++', '-python', '-outdir', directory, '-o', wrapper, interface], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    includes = subprocess.run(['python3-config', '--includes'], check=True, stdout=subprocess.PIPE, text=True).stdout.split()
    group['flags'] = includes + ['-I' + os.path.join(repo, 'src', 'python')]
    group['link'] = subprocess.run(['python3-config', '--embed', '--ldflags'], check=True, stdout=subprocess.PIPE, text=True).stdout.split()
    group['generated'] = [wrapper]


def prepare_cuda(group, directory, repo):
    """The sources for CUDA become ordinary ones: a launch of a kernel is a loop over its threads."""
    out = os.path.join(directory, 'gen', 'cuda')
    os.makedirs(out, exist_ok=True)
    here = os.path.dirname(os.path.abspath(__file__))
    launch = re.compile(r'((?:[\w:]+(?:<[^<>;]*>)?|\((?:[^()]|\([^()]*\))*\)))\s*<<<(.*?)>>>\s*\(', re.S)
    generated = []
    for path in sorted(glob.glob(os.path.join(repo, 'src', 'cuda', '*.cu*'))):
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            text = f.read()
        text = launch.sub(r'for ( cudaEmulator::Launch emulatorLaunch(\2); emulatorLaunch.next(); ) \1(', text)
        name = os.path.basename(path)
        if name.endswith('.cu'):
            name = name[:-3] + '.cpp'
            generated.append(os.path.join(out, name))
        with open(os.path.join(out, name), 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write(text)
    emulator = os.path.join(here, 'pbt', 'cuda')
    group['flags'] = ['-I' + os.path.join(directory, 'gen'), '-I' + emulator, '-iquote', os.path.join(repo, 'src', 'cuda')]
    group['generated'] = generated + [os.path.join(emulator, 'emulator.cpp')]


def prepare_builds(group, directory, repo):
    """The library as it is built for other processors: the sources which depend on instruction sets are compiled for each of them.
    Instructions of ARM are emulated, but clang with the real header has to accept the sources."""
    here = os.path.dirname(os.path.abspath(__file__))
    variants = {
        'scalar': ['-U__SSE2__'],
        'SSE2': ['-mno-ssse3'],
        'SSSE3': ['-mno-avx'],
        'AVX2': ['-mno-avx512f'],
        'NEON': ['-D__arm__', '-I' + os.path.join(here, 'pbt', 'neon')],
    }
    includes = subprocess.run(['g++', '-E', '-x', 'c++', '-', '-v'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    includes = [os.path.abspath(line.strip()) for line in includes.splitlines() if line.startswith(' /')]
    arm = ['clang++', '--target=aarch64-linux-gnu', '-D__x86_64__']
    for path in includes:
        if '/gcc/' not in path:
            arm += ['-isystem', path]
    sources = []
    for path in sorted(glob.glob(os.path.join(repo, 'src', '*.cpp'))):
        with open(path, encoding='utf-8', errors='replace') as f:
            text = f.read()
        if 'cpu_identification' in text or 'immintrin' in text:
            sources.append(path)
    common = ['-std=gnu++11', '-w', '-fsyntax-only', '-I' + os.path.join(repo, 'src')]

    def accepts(command, path):
        return subprocess.run(command + common + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode == 0

    with ThreadPoolExecutor(8) as pool:
        def check(job):
            name, path = job
            return accepts(arm if name == 'NEON' else ['g++', '-march=native'] + variants[name], path) or not accepts(['g++', '-march=native'], path)
        jobs = [(name, path) for name in variants for path in sources]
        broken = sorted({job[0] for job, good in zip(jobs, pool.map(check, jobs)) if not good})
    group['variants'] = {name: flags for name, flags in variants.items() if name not in broken}
    group['env'] = {'PBT_BROKEN_BUILDS': ' '.join(broken)}


def prepare_window(group, directory, repo):
    group['generated'] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pbt', 'x11', 'xserver.cpp')]


GROUPS = {
    'images': {'harness': ['h_images.cpp'] + OPS},
    'container': {'harness': ['h_container.cpp', 'perturb.cpp'], 'lib': [],
                  'fileflags': {'h_container.cpp': ['-finstrument-functions', '-finstrument-functions-exclude-file-list=h_container,pbt.h,img.h,image_buffer']}},
    'files': {'harness': ['h_files.cpp'], 'flags': ['-DPENGUINV_ENABLED_PNG_SUPPORT', '-DPENGUINV_ENABLED_JPEG_SUPPORT'],
              'link': ['-lpng', '-ljpeg', '-lz'], 'fuzz': {'P17': 150}, 'asan': 'max_allocation_size_mb=200'},
    'vision': {'harness': ['h_vision.cpp']},
    'math': {'harness': ['h_math.cpp'], 'prepare': prepare_math},
    'opencl': {'lib': ['*.cpp', 'math/*.cpp', 'file/*.cpp', 'penguinv/*.cpp', 'thirdparty/kissfft/*.c', 'opencl/*.cpp'], 'harness': ['h_opencl.cpp', 'ops_opencl.cpp', 'ops_generic.cpp', 'ops_ref.cpp', 'ops_break.cpp'], 'link': ['-lOpenCL'], 'env': {'POCL_MAX_PTHREAD_COUNT': '1', 'OCL_ICD_VENDORS': '/etc/OpenCL/vendors'}},
    'cuda': {'lib': ['*.cpp', 'math/*.cpp', 'file/*.cpp', 'penguinv/*.cpp', 'thirdparty/kissfft/*.c'], 'harness': ['h_cuda.cpp', 'ops_cuda.cpp', 'ops_generic.cpp', 'ops_ref.cpp', 'ops_break.cpp'], 'prepare': prepare_cuda},
    'builds': {'harness': ['h_images.cpp'] + OPS, 'flags': ['-DPBT_BUILDS'], 'prepare': prepare_builds},
    'window': {'lib': ['ui/ui.cpp', 'ui/x11/*.cpp'], 'harness': ['h_window.cpp'], 'prepare': prepare_window, 'link': ['-lX11']},
    'python': {'lib': ['image_function.cpp', 'image_function_helper.cpp', 'file/bmp_image.cpp'], 'harness': ['h_python.cpp'], 'prepare': prepare_python,
               'env': {'PBT_PYTHON_MODULE': '@DIR@', 'PYTHONMALLOC': 'malloc'}},
    'concurrency': {'harness': ['h_concurrency.cpp', 'h_threads.cpp', 'perturb.cpp'] + OPS, 'sanitize': ['-fsanitize=thread'], 'flags': ['-DPBT_THREADS_ID="P32"'],
                    'fileflags': {f: ['-finstrument-functions'] for f in ('thread_pool.cpp', 'function_pool.cpp', 'function_pool_task.cpp', 'image_function_helper.cpp', 'image_function.cpp', 'penguinv.cpp')}},
    'threads': {'harness': ['h_threads.cpp', 'perturb.cpp'], 'workers': 16, 'fileflags': {'thread_pool.cpp': ['-finstrument-functions'], 'function_pool_task.cpp': ['-finstrument-functions']}},
}

PROPERTY_GROUP = {}
# seconds of search: (quick, thorough)
TIMES = {}
NOTES = {}
TECHNIQUE = {}
NOT_APPLICABLE = {}

LIMIT = ' Sampled, never exhaustive: absence of violations holds for the generated cases only.'


def claim(prop, group, technique, note, times=None):
    PROPERTY_GROUP[prop] = group
    TECHNIQUE[prop] = technique
    NOTES[prop] = note + LIMIT
    if times:
        TIMES[prop] = times


_REF = 'property-based testing: generated calls against an independent per-pixel reference implementation'
_ASAN = ' The library is compiled from the working tree with AddressSanitizer; generated images have exactly sized buffers, guard bytes in padding and random rectangles.'
claim('P01', 'images', _REF, 'Every point-wise operation in all call forms, gray and colour, aliased outputs, compared byte by byte with a reference written from the documented formula.' + _ASAN)
claim('P02', 'images', _REF, 'All conversions and channel operations including RGBA sources, 16-bit images and offsets in colour images, compared with a reference.' + _ASAN)
claim('P03', 'images', _REF, 'All reductions compared with a direct visit of each pixel.' + _ASAN)
claim('P04', 'images', _REF + ' and involution laws', 'Flip, transpose, resize, rotate and shift compared with the mapping evaluated in double precision (one gray level of tolerance for rotate).' + _ASAN)
claim('P05', 'images', _REF, 'Dilation and erosion compared with the clipped rectangular neighbourhood.' + _ASAN)
claim('P06', 'images', 'property-based testing: snapshot of every byte outside the output rectangle plus AddressSanitizer, over generated calls of scalar, SIMD and pool functions',
      'All bytes outside the rectangle are compared before and after each call.' + _ASAN)
claim('P07', 'images', 'property-based testing: valid generated calls broken in exactly one way must throw and change nothing', 'Each way of breaking a call is generated for each function, form and implementation.' + _ASAN)
claim('P08', 'images', 'property-based testing: differential testing of every SIMD level against the reference', 'All levels of this machine (SSE, AVX, AVX512 when present), switched between calls; other builds of the library belong to P35.' + _ASAN)
claim('P35', 'builds', 'property-based testing: differential testing of the library built for other processors against the reference',
      'The sources which depend on instruction sets are built without any, for SSE2, SSSE3, AVX2 and NEON; NEON instructions are emulated, clang with its real header for ARM confirms that these sources compile.' + _ASAN, (25, 270))
claim('P09', 'images', 'property-based testing: differential testing of the thread pool functions against the single-threaded ones', 'Pools of 1 to 12 threads, resized between calls; interleavings are those the operating system produces.' + _ASAN)
claim('P10', 'images', 'property-based testing: differential testing of generic entry points against scalar functions and hand conversion', 'A second image type with inverted storage is registered to observe conversion.' + _ASAN)

_SCHED = ' Interleavings are sampled: pool code is compiled with function instrumentation and threads yield, spin or sleep at random inside it; more workers than cores. A hang is a case without an end after 10 s, confirmed by repetition.'
claim('P11', 'threads', 'property-based testing: stateful generated histories of one or several threads with perturbed schedules against a model of task counts', 'Counts per task, wait status, activity after wait, and termination are checked for each history; built with AddressSanitizer.' + _SCHED)
claim('P12', 'threads', 'property-based testing: generated failing tasks in perturbed concurrent histories against the expected status', 'Which tasks throw is generated; statuses of failing and healthy providers, complete execution and later reuse are checked, also through function pool calls.' + _SCHED)

claim('P13', 'container', 'property-based testing: stateful generated histories of image operations against a model of geometry and contents', 'Every image is compared with the model after every step, memory is tracked by a second image type with injected allocation failures and by the sanitizer (leaks by allocated bytes).')
claim('P14', 'container', 'property-based testing: stateful generated histories of the allocator against a model of live memory', 'Overlap, alignment, contents and recovery of the whole block are checked; the block is observed through operator new[].' + _SCHED)

_FILE = 'property-based testing: round trips through files, checked by independent readers and writers'
claim('P15', 'files', _FILE, 'Images and rectangles saved as bitmap are read by a separate reader that checks each header field, and loaded back; refused saves include full devices.')
claim('P16', 'files', _FILE, 'PNG files are read by a separate decoder (zlib only), JPEG errors are compared with direct libjpeg coding, raw files for four element sizes. Alpha is not stored by PNG files of this library; JPEG refuses it.')
claim('P17', 'files', 'fuzzing: structured generation and mutation of files with AddressSanitizer; the thorough tier adds coverage-guided search (libFuzzer) over the same generator', 'Allocations above 48 MB fail during such a load. libpng, libjpeg and zlib themselves are not instrumented.')
claim('P18', 'files', 'property-based testing: files generated by independent encoders against the generated pixels', 'Uncompressed bitmaps with 12 and 40 byte headers, all kinds of PNG; 16 bit PNG samples may be rounded or cut.')

claim('P19', 'vision', 'property-based testing: generated scenes against connected regions found by another algorithm', 'Points, edges and contours of every blob are compared as sets with a union-find labelling.' + _ASAN)
claim('P20', 'vision', 'property-based testing: generated scenes against values recomputed from the points', 'All values in any order of demand, ranges at values of blobs, best blob and sorting.' + _ASAN)
claim('P21', 'vision', 'property-based testing: metamorphic laws, known patterns and local necessary conditions over generated scenes', 'Mirror, transpose, opposite direction, offset, crop, first/last, skip and group laws; clean and noisy patterns at known places; each reported point is checked for a real change of intensity.' + _ASAN)
claim('P22', 'vision', _REF, 'Median, Sobel and Prewitt in all call forms against their definition.' + _ASAN)
claim('P23', 'math', 'property-based testing: generated sizes and sigma against the formula in extended precision', 'Sigma covers all magnitudes of float.' + ' Built with AddressSanitizer.')
claim('P24', 'math', 'property-based testing: transforms against the definition evaluated in double precision, round trips, convolution theorem, model of data histories', 'Sizes up to about 1500 elements; tolerance is relative to the norm of the data.' + ' Built with AddressSanitizer.')
claim('P25', 'math', 'property-based testing: transforms against the definition in extended precision, round trip and energy', 'Float and double at their own accuracy.' + ' Built with AddressSanitizer.')
claim('P26', 'math', 'property-based testing: the variance of the returned threshold against the maximum over all thresholds in extended precision', 'Histograms of all kinds up to 32-bit counts.')
claim('P27', 'math', 'property-based testing: partition, band and best support against an exhaustive search over the same angles', 'Best support is compared when no two points are at the distance of exactly the width of the band within rounding.')
claim('P28', 'math', 'property-based testing: results against exact geometry in extended precision, exact determinants and residuals', 'Float and double with tolerances from rounding of each type.')
claim('P29', 'math', 'property-based testing: stateful generated histories of analysis and correction against a model', 'Objects are created in memory filled with garbage.' + ' Built with AddressSanitizer.')
claim('P30', 'opencl', 'property-based testing: generated calls on a device of the processor (pocl) against the independent reference of the CPU functions, stateful device histories', 'All functions of the module in every form with unequal offsets and alignment, transfers, refusals, device memory.' + ' Built with AddressSanitizer; kernels are compiled by pocl without it.', (40, 300))
claim('P33', 'cuda', 'property-based testing: generated calls of the CUDA module, executed thread by thread by an emulator of the device, against the independent reference of the CPU functions, stateful device histories', 'The sources for CUDA are compiled as ordinary ones with launches of kernels turned into loops over threads in generated orders and sizes of blocks; device memory is poisoned for the processor; transforms, transfers, refusals, failing allocations, several devices.' + _ASAN, (15, 240))
claim('P34', 'window', 'property-based testing: stateful generated histories of X11 windows against a stand-in for the X server which keeps the pixels of windows', 'The functions of Xlib which the window uses are replaced by ones which keep windows, pixels and prepared events and record requests a server refuses. Windows and Qt variants cannot be built here.' + _ASAN, (8, 60))
claim('P31', 'python', 'property-based testing: generated Python programs over images that may share objects, executed in step with the same calls of the library', 'The wrapper is generated by swig from the interface file of the working tree and runs in an interpreter embedded in the test program, built with AddressSanitizer. Image.assign and data(), which pass raw pointers, are not generated.')
claim('P32', 'concurrency', 'property-based testing: generated concurrent histories under ThreadSanitizer, every result compared with the reference or with the same work done alone',
      'The library is compiled with ThreadSanitizer; half of the cases run in processes which use the library for the first time. Implementation switches, conversion switches and the pool size are not changed during a case.' + _SCHED.replace(' A hang is a case without an end after 10 s, confirmed by repetition.', ''))
