REASONS = {
    'N01': 'The error of an interpolation table is a numerical quantity; no construct in the source shows it.',
    'N02': 'Statistical agreement of random realisations with a requested spectrum is a distributional claim over runtime values.',
    'N03': 'Accuracy of clustering or neural-network segmentation depends on data and trained weights.',
    'N04': 'Convergence with the number of random rays is a limit statement over runtime values.',
    'N05': 'Time and memory are runtime measurements.',
    'N06': 'Needs fault injection at the file-system level; the package makes no attempt at atomic replacement, so there is no mechanism in the source to verify.',
    'N07': 'The external codes are not installed, so their option formats cannot be consulted.',
}
