"""properties this family of technique cannot decide here"""
PROPS = [
    dict(meta=dict(
        id='P90', title='Figures show the computed values with their fits',
        statement='Every figure a statistic draws shows exactly the computed points with their errors, the fitted line and the fit limits in the requested '
                  'unit, and saving a figure writes it to the given name without showing it.',
        quantifier=dict(over=['inputs'], text='all computed results and plot options'),
        why_tests_cant='tests only run the plot functions',
        anchors=dict(files=['turbustat/statistics/base_pspec2.py'],
                     mechanism=[dict(name='plot_fit', where='turbustat/statistics/base_pspec2.py:447')])),
         reason='what a figure shows is produced by matplotlib (C extension modules and rendering back ends); there is no encoding of it over '
                'solver variables within reach'),
    dict(meta=dict(
        id='P91', title='Threads and the choice of FFT library do not change results',
        statement='Power spectra, bispectra, wavelets and delta-variance are the same up to rounding for any number of threads and with pyFFTW or numpy transforms.',
        quantifier=dict(over=['inputs', 'schedules'], text='all images, thread counts and planner options'),
        why_tests_cant='tests compare two runs of one image',
        anchors=dict(files=['turbustat/statistics/rfft_to_fft.py', 'turbustat/statistics/convolve_wrapper.py'],
                     mechanism=[dict(name='rfft_to_fft', where='turbustat/statistics/rfft_to_fft.py:21')])),
         reason='the transforms and their threads are compiled FFTW code outside the repository and pyFFTW is not installed here, so that no replay is possible; that the '
                'options reach the right call is checked with stand-ins in P01, P08, P09 and P10'),
]
