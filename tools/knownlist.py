FIX2 = [
 ('U01', 'fix: give the standard streams back', 'a captured section whose stream was closed, or an interrupt while streams were swapped, left the streams replaced'),
 ('U01', 'fix: give the interrupt handler back', 'a failing terminal write at the start of a task left the interrupt handler of the monitor installed'),
 ('U02', 'fix: accept progress of tasks with unknown', 'reporting work of a task without known (or with zero) total work raised TypeError or ZeroDivisionError'),
 ('U03', 'fix: show the user configuration', 'a second thread saw an empty configuration while the first was loading it'),
 ('U03', 'fix: write the default configuration file', 'a kill or full disk while the default configuration was created left a truncated file'),
 ('R01', 'fix: replace the block of input', 'after a read error while a block was loaded, later reads returned values of other records; reading beyond the end returned a record'),
 ('R02', 'fix: leave nothing of a failed', 'values of a record whose writing failed became part of the next record'),

 ('P01', 'fix: start every processing run', 'a run after a cancelled or failed one used surfaces and bursts of that run'),
 ('P02', 'fix: set the UTC time of the first surface', 'the first record of the product, and of each piece after a gap, had UTC time 0 or that of another surface'),
 ('P02', 'fix: calibrate the first burst after a data gap', 'the burst that follows a data gap was calibrated twice'),
 ('P02', 'fix: use no bursts across a data gap', 'surfaces after a data gap were made of bursts from before the gap'),
 ('P02', 'fix: keep the product if the piece after', 'a short last piece after a data gap made the whole run fail'),
 ('P03', 'fix: skip unusable input records', 'an unusable first or last record, or several in a row, made the run fail or changed the product'),
 ('P03', 'fix: read the last record of the region', 'the last record of the region of interest was never used'),
 ('P10', 'fix: do not report more work', 'more work than the total was reported for inputs with gaps or unusable records'),
 ('P09', 'fix: fit the stack without changing', 'a concurrent run could get warnings turned off or on by another, or a warning as an error'),
 ('P06', 'fix: close all files', 'a run that failed left the input and product files open'),
 ('W08', 'fix: refuse new names with line breaks', 'after selecting a name with a line break the current selection named something that does not exist'),
 ('C02', 'fix: compare uses the first product', 'the compare command without a second product failed instead of using the first'),
 ('C02', 'fix: compare looks up the second', 'the compare command looked for a second product given by path in the outputs and one given by name in the working directory'),
 ('C02', 'fix: numeric global attributes', 'global attributes that are numbers or arrays were returned as objects that cannot be sent'),
 ('W01', 'fix: list a file once', 'files that match two of several patterns were listed twice, and counted twice when removed (C02)'),
 ('P13', 'fix: process inputs without a product name', 'an input without the product_name attribute made the run fail at its very end'),
 ('P14', 'fix: a missing stack masking flag is an error', 'a CNF without flag_stack_masking_cnf was processed with the masking switched off'),
]
FINDINGS2 = []
