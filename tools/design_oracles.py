ORACLE = {
'C01': 'a set computation over the dates spelled by the file names: which entries match each step, and what the policy makes of none.',
'C02': 'the same set computation chained over the operations; output names spelled with strftime from the step.',
'C03': 'the list 0..n-1; recorded indexes of every call are compared with the slice of the batch.',
'C04': 'structural equality of the object written with the object read, and equality of resolved operation parameters before and after.',
'C05': 'catalogue content before and after: the old one, or the complete new one (computed by an undisturbed build), nothing else.',
'C06': 'POSIX cksum computed independently over the bytes; bound on live threads observed by the scheduler.',
'C07': 'an independent parser of the naming rules (field by field, calendar checked by datetime).',
'C08': 'proleptic Gregorian calendar by counting days, exact rational arithmetic for parts of a day, month and year.',
'C10': 'dense Gaussian posterior from the set of observations last taken in for each day.',
'C11': 'dense linear algebra (numpy) on the same matrix.',
'C12': 'dense inverse restricted to the sparsity pattern.',
'C13': 'observations minus the dense predictions of the other components at their state at that moment.',
'C14': 'block concatenation of the results of the parts, each evaluated alone.',
'C15': 'documented precision written out densely; central differences at two step sizes for the derivatives.',
'C16': 'break points in force on the day of each observation, from the table by hand.',
'C17': 'each grid cell evaluated alone at its own sub-cell positions, weights by cosine of latitude.',
'C18': 'log marginal likelihood from dense matrices up to a constant, gradient by central differences, optimum by a fine scan.',
'C19': 'documented basis functions evaluated by scalar code at each observation.',
'C20': 'per-cell lists of the values of the valid observations; statistics from the lists.',
'C21': 'per-cell lists of the values of the valid observations; statistics from the lists.',
'C22': 'the list of observations written; byte counts for cut files.',
'C23': 'per-cell lists of observations, exact sums.',
'C24': 'spherical geometry in independent double-precision code; edge and area counts of an icosahedral subdivision.',
'C25': 'the values put into the source files, by location.',
'C26': 'a dictionary (quantity, day) to value.',
'C28': 'the specification written out as a table; a departure is expected to fail exactly where the table asks for something.',
'C29': 'lists compared with what was given; dense normal equations and posterior of the rows written to the files of the chosen days, and the exact marginal likelihood before and after the fit.',
'C30': 'bitwise rules of the flag definitions as documented, applied word by word.',
'C31': 'counts over the dates of the window or calendar day by datetime arithmetic.',
'C39': 'scalar loops over the neighbourhood of each cell.',
'C32': 'the multiset of operation indexes recorded by running every job, and the dependency order of the submissions.',
'C33': 'inverse-variance or documented combination evaluated per cell with scalars; file sets before and after.',
'C34': 'value within half a step after reading back with netCDF4, or masked.',
'C35': 'the filters applied row by row to the table the station file was made from.',
'C36': 'the stand-in formula and the documented rules evaluated per cell.',
'C37': 'all directories exist and no caller failed.',
'C38': 'the same analysis done sequentially in memory, states compared number by number.',
}
