REASONS = {
    'X01': 'Rounding-error bounds quantify over floating-point values; no static argument over the source bounds them.',
    'X02': 'Timing and load balance of real runs are runtime quantities.',
    'X03': 'The accuracy of the identified model on a benchmark is a numerical outcome of a run; the formulas it rests on are decided under N08 and N09.',
}
