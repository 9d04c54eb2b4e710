import json
P=[]
WM='dedop/ui/workspace_manager.py'
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=state
    if observe: a['observe_at']=observe
    if hook is not None: a['hook_needed']=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('W01','Workspace histories behave like a sequential model',
  'After any history of workspace, configuration, input, output and notebook operations, issued by any mix of workspace managers over one directory, the listings, file contents, versions and current selections reported are exactly those of a sequential model of that history. An operation that is refused changes nothing, and no operation changes any workspace, configuration, input or output other than the one it names.',
  ['histories','inputs'],'every finite sequence of manager operations (create, copy, rename, delete, import, remove, edit, upgrade, select, clean, list with any pattern), every directory listing order',
  'the tests run a few fixed scripts of two or three calls; they never interleave operations on several workspaces, name collisions, missing objects or two managers.',
  [WM,'dedop/ui/workspace.py'],[('workspace operations','WorkspaceManager public methods'),('listing','get_workspace_names, get_config_names, get_input_names, get_output_names')])
p('W02','A failed workspace operation is reported and leaves nothing half done',
  'When the file system fails during a workspace operation (full disk, read, write, rename or directory error at any call), the caller gets an error, never a silent success. A failed create, copy, rename, edit, import or selection leaves the workspaces as they were, except that a multi-file import may have completed some of its files; a failed delete or clean may have removed only parts of what it names.',
  ['fault_sequences','histories'],'every operation, every file-system call it makes, every kind of failure including partial writes, after any history',
  'no test makes a file-system call fail.',
  [WM],[('config edit','write_config_file'),('copy','copy_workspace, copy_config'),('import','add_inputs'),('create','create_config')])
p('W03','Crash of a workspace operation never exposes torn state after restart',
  'If the program is killed at any point inside a workspace operation and started again, every current selection is the old or the new name, every configuration file is wholly the old or the new text, every listed configuration, workspace copy and input is complete, and everything the operation did not name is untouched. A deletion may be partly done, but only inside what it names.',
  ['crash_points','histories'],'every crash point (before, after or in the middle of any file-system write) of every operation after any history',
  'no test kills the program; a crash in the middle of a write is never sampled.',
  [WM],[('selection files','_writeline'),('config edit','write_config_file'),('copy','copy_workspace, copy_config'),('import','add_inputs'),('create','create_config')])
p('W04','Concurrent clients get whole, sequentially explainable results',
  'When several clients use the workspaces at the same time, a reader sees each configuration file, selection and input either wholly before or wholly after a concurrent change, never in between. Clients working in different workspaces or configurations get the same results as if each had been alone.',
  ['schedules','histories'],'every interleaving, at any statement or file-system call, of two or three clients each running a short program',
  'the web service runs its calls in a thread pool, but the tests are single-threaded.',
  [WM,'dedop/webapi/websocket.py'],[('service calls','WebSocketService methods over one WorkspaceManager')])
p('W05','Workspace operations never reach outside what they name',
  'Whatever names a caller passes (empty, ".", "..", absolute, with separators), a workspace, configuration, input or output operation either is refused with a workspace error or affects only the direct child of that name. Nothing else in the workspaces directory and nothing outside it is removed, moved or overwritten.',
  ['inputs','histories'],'every name from a hostile alphabet for every operation taking a name, on any populated tree',
  'the tests only use well-formed names.',
  [WM],[('delete','delete_workspace, delete_config'),('copy and rename','copy_workspace, rename_workspace, copy_config, rename_config'),('create','create_workspace, create_config')])
p('W06','Configuration upgrade keeps user values and can be interrupted',
  'Upgrading a configuration of any older version yields the current version with exactly the parameters the change log added, changed or removed since then replaced by their defaults or dropped, and every other user value kept. Upgrading again changes nothing, a configuration that is current or newer is never changed, and an upgrade that fails or is killed part way and is then repeated ends in the same files as an uninterrupted one.',
  ['crash_points','fault_sequences','inputs','histories'],'every old version per file, every set of user edits, every crash point and failing call, any number of repeated upgrades',
  'the tests upgrade in-memory dictionaries of one toy change log, with no files and no interruption.',
  [WM],[('upgrade','upgrade_config, upgrade_all_config, _do_upgrade_config')])
p('W07','Notebooks are never overwritten and every request gets its own',
  'Each successful inspect or compare request creates one new notebook that names the requested products, and no request ever changes or removes a notebook that already exists, whatever other clients do at the same time and wherever a failure strikes. A request whose notebook could not be written is reported as failed.',
  ['schedules','fault_sequences','histories'],'every interleaving of concurrent requests for the same or different products, every failing file-system call, every set of existing notebooks',
  'the notebook commands are not tested at all.',
  [WM],[('notebook creation','inspect_l1b_product, compare_l1b_products, launch')])
p('W08','The current selection always names something that exists',
  'After any history of command-line commands, or of web service calls that do not rename, the current workspace and the current configuration of each workspace are unset or name an existing one. Removing the current one selects the one called default if it exists, else another existing one, else none, and renaming the current one through the command line keeps it current under the new name.',
  ['histories'],'every sequence of command lines and service calls that create, copy, rename, select and remove workspaces and configurations',
  'the command-line tests try one fixed sequence and cannot run here; selection after removal is only sampled.',
  ['dedop/cli/main.py','dedop/webapi/websocket.py',WM],[('command line','ManageWorkspacesCommand, ManageConfigsCommand'),('service','WebSocketService.delete_workspace, delete_config')])
p('P01','A processor carries nothing over from earlier runs',
  'Whatever a processor object did before (complete runs, cancelled runs, runs that failed at any point), its next run on an input gives the same products and the same outcome as a new processor with the same configuration.',
  ['histories','fault_sequences'],'every sequence of runs over different inputs, each complete, cancelled at any step or failed at any read or write',
  'there is no end-to-end processor test in the repository; the batch command re-uses one processor for all inputs.',
  ['dedop/proc/sar/processor.py','dedop/proc/sar/algorithms/surface_locations.py'],[('run loop','L1BProcessor.process'),('per-run state','surface and burst queues, focus flag')])
p('P02','A data gap splits the product into the products of its pieces',
  'Processing an input with time gaps gives the surface records that its gap-free pieces give when processed alone, in order: no measurement burst is used across a gap, lost, or calibrated more than once. A piece too short to give surfaces of its own never makes the rest of the product disappear.',
  ['inputs','schedules'],'every placement, number and length of gaps and pieces, every calibration setting',
  'no test processes an input with a gap.',
  ['dedop/proc/sar/processor.py','dedop/proc/sar/cal/cal1_algorithm.py','dedop/proc/sar/cal/cal2_algorithm.py'],[('gap handling','L1BProcessor run loop')])
p('P03','Unusable input records are as if they were not in the file',
  'Records without a position, and records outside the configured region, have no effect: the product records are those given by the input with just those records removed, wherever they stand, including at the start or the end. All records with a position inside the region, its bounds included, are used, the last one included, also when only their latitude or only their longitude is zero.',
  ['inputs','configurations'],'every placement and number of unusable records and every region',
  'no test processes an input with invalid records or a region.',
  ['dedop/proc/sar/processor.py','dedop/data/input/l1a/l1a_dataset.py','dedop/data/input/input_dataset.py'],[('selection','L1ADataset iteration'),('run loop','L1BProcessor')])
p('P04','Cancelling stops soon and leaves readable, exact partial products',
  'Once the monitor answers that cancellation was requested, the run ends within one more processing step, and it reports that it did not complete. This holds for a request at any moment. The products are then closed and readable and hold exactly the leading records of the products of an uncancelled run.',
  ['schedules'],'every moment of cancellation, including before the first record, inside a gap and while draining the last surfaces',
  'cancellation of the real processor is never tested.',
  ['dedop/proc/sar/processor.py','dedop/util/monitor.py'],[('cancellation','L1BProcessor run loop polling the monitor')])
p('P05','Processing never reports success for a wrong or incomplete product',
  'If any read of the input or any write, metadata update or close of a product fails, the run ends with an error. A run that ends normally has written the complete product of a fault-free run, record for record.',
  ['fault_sequences'],'every read, write, create, attribute and close operation of a run, failing once or from then on',
  'no test makes netCDF input or output fail.',
  ['dedop/proc/sar/processor.py','dedop/data/output/netcdf_writer.py','dedop/data/input/netcdf_reader.py'],[('run loop','L1BProcessor'),('writer','NetCDFWriter.write_record'),('reader','NetCDFReader')])
p('P06','Every run releases its files however it ends',
  'When a run has returned or failed, for whatever reason and at whatever point, no input or product file is left open, and the same run can be started again at once in the same process.',
  ['fault_sequences','schedules'],'every way a run can end: completion, cancellation at any step, failure of any file operation including opening and closing',
  'no test looks at file handles after a run, and none makes a run fail.',
  ['dedop/proc/sar/processor.py','dedop/data/output/netcdf_writer.py','dedop/data/input/input_dataset.py'],[('close','L1BProcessor.process')])
p('P07','L1B and L1B-S products stay in step',
  'For every run that completes or is cancelled, the L1B and L1B-S products hold the same number of records, and record by record the same surface (time and position); no record of either is partly written. Producing the L1B-S product or not makes no difference to the L1B product.',
  ['schedules','inputs'],'every cancellation moment, gap pattern and output format',
  'no test runs both writers together.',
  ['dedop/proc/sar/processor.py','dedop/data/output/l1b_writer.py','dedop/data/output/l1bs_writer.py'],[('record writing','L1BProcessor run loop')])
p('P08','The product depends on input and configuration only',
  'Apart from the creation time, a product depends only on the input file and the three configuration files: not on the clock or its jumps, the monitor, where the files lie, the output folder, leftovers of an earlier product of the same name, other processors run before in the same program, what uninitialised memory holds, or the hash seed. The creation time is the time of the clock at which the run finished.',
  ['schedules','configurations'],'every clock behaviour, monitor, output location, earlier output file, hash seed',
  'no test compares two runs.',
  ['dedop/proc/sar/processor.py','dedop/util/time.py'],[('globals','write_globals'),('clock','iso_format')])
p('P09','Processors running at the same time do not disturb each other',
  'Processors running concurrently in one program, with different or equal configurations and inputs and separate output folders, produce the same products and outcomes as when run one after the other, also when one of them fails or is cancelled.',
  ['schedules','configurations','fault_sequences'],'every interleaving at any statement of two or three runs',
  'the web service runs processing calls in a thread pool; the tests never run two.',
  ['dedop/proc/sar/processor.py','dedop/conf/auxiliary_parameter.py','dedop/util/parameter.py'],[('shared state','class-level parameter definitions and caches')])
p('P10','Progress reports add up',
  'In every run the task is started once with the number of input records and ended exactly once; the reported work never decreases, never exceeds the total, and reaches the total when the run completes.',
  ['inputs','schedules','fault_sequences'],'every input including gaps and unusable records, every cancellation moment and every failure',
  'progress of the real processor is never tested.',
  ['dedop/proc/sar/processor.py','dedop/util/monitor.py'],[('reports','monitor calls of the run loop')])
p('P11','Every product record describes a place and time that was measured',
  'In every product, also that of a cancelled run, the records are in order of time and lie within gap-free stretches of the input, evenly spaced and without holes or repetitions. Position, velocity and altitude of a record are those of the satellite track at the record\'s time, and its UTC day and second and GPS time are that time, also across midnight, the equator and the prime meridian; the instrument values are all taken from one usable input burst next to it; and away from the ends of a stretch its stack has the configured number of looks, from consecutive bursts around it. Every input with a gap-free stretch of about a hundred usable records can be processed.',
  ['inputs','histories','schedules'],'every arrangement of gaps and unusable records, start time, track position, configuration and moment of cancellation',
  'no test processes a whole input; the unit tests compare single formulas for single bursts.',
  ['dedop/proc/sar/processor.py','dedop/proc/sar/algorithms/surface_locations.py','dedop/proc/sar/algorithms/stack_gathering.py','dedop/data/output/l1b_writer.py','dedop/data/output/l1bs_writer.py'],[('run loop','L1BProcessor._process, clear_old_records'),('placing','SurfaceLocationAlgorithm'),('stack','StackGatheringAlgorithm'),('record','write_record')])
p('P12','A longer input extends the product',
  'Adding records at the end of an input, directly or after a gap, leaves every product record that lies further from the old end than a beam reaches exactly as it was.',
  ['inputs','histories'],'every input, every number of records added',
  'no test compares two runs.',
  ['dedop/proc/sar/processor.py'],[('queues','surf_locs, source_isps, clear_old_records')])
p('P13','Product metadata are those of the input and the configuration',
  'Every product, also that of a cancelled run and whatever the processor did before, carries the global attributes of its input ("Not available" where the input has none), the product name derived from that of the input, the ellipsoid of the configured constants, and as measurement times those of the first and the last record of the input within the region. An input that lacks some of these attributes is processed all the same.',
  ['inputs','histories','fault_sequences'],'every set of attributes, region, unusable record, moment of cancellation and earlier run',
  'no test looks at the global attributes of a product made by the processor.',
  ['dedop/proc/sar/processor.py','dedop/data/input/l1a/l1a_dataset.py','dedop/data/output/netcdf_writer.py'],[('metadata','L1BProcessor._process, L1AGlobals, write_globals')])
p('P14','A processor works with one whole version of its configuration',
  'A processor uses the values its three configuration files had when it was created, whatever happens to the files afterwards, even during its run. A file that is replaced while the processor is created is taken wholly as it was or wholly as it is then. A file that is missing, unreadable, cut off, of an older, newer or unknown version is never used: creating or running the processor fails, also if the same path was in use before. A missing parameter without a default is an error or makes no difference, an unknown one makes none, intact files are accepted, and after a failed attempt the repaired files can be used at once.',
  ['schedules','fault_sequences','inputs','crash_points'],'every moment of a change, every cut, every failing read, every parameter left out',
  'the tests read a few intact files, and nothing changes them in between.',
  ['dedop/conf/auxiliary_file_reader.py','dedop/conf/auxiliary_parameter.py','dedop/proc/sar/processor.py'],[('reading','AuxiliaryFileReader._read_file'),('values','AuxiliaryParameter.__get__')])
p('R01','Input records read back exactly, also after read errors',
  'Reading any record in any order returns exactly the values stored for that record. If reads fail in between, each later read either fails or still returns the right values, and once reads work again every record can be read.',
  ['histories','fault_sequences','inputs'],'every access sequence, every failing read, every input length',
  'the test reads ten records in order without failures, fewer than one cache block.',
  ['dedop/data/input/netcdf_reader.py','dedop/data/input/l1a/l1a_dataset.py'],[('block cache','NetCDFReader.get_value')])
p('R02','A product file holds exactly the records whose writing succeeded',
  'For any sequence of record writes in which some fail, record i of the closed product is the i-th record whose writing succeeded, with exactly its values: no failed write shifts, overwrites or becomes part of another record. (Only behind the last good record may remains of a failed last write stay.) Every failed write is reported to the caller.',
  ['histories','fault_sequences'],'every sequence of record writes and of failing variable writes',
  'the tests write a few records without failures.',
  ['dedop/data/output/netcdf_writer.py','dedop/data/output/l1b_writer.py','dedop/data/output/l1bs_writer.py'],[('record index','NetCDFWriter.write_record')])
p('U01','Interrupt handling and output streams are always given back',
  'However a monitored task or a captured section ends (normally, by error, by interrupt at any moment, by a failing terminal, nested in each other), the interrupt handler and the standard streams are afterwards those from before. While a console-monitored task runs, an interrupt requests cancellation, is never lost once requested, and does not kill the task. What is written inside a captured section is in its capture.',
  ['schedules','histories','fault_sequences'],'every nesting, every moment of interrupts, every way of ending, failing output streams',
  'the tests use one monitor in one fixed sequence without real interrupts.',
  ['dedop/util/monitor.py','dedop/util/fetchstd.py'],[('handler','ConsoleMonitor.start/done'),('streams','fetch_std_streams')])
p('U02','Nested progress and cancellation are conserved',
  'For every tree of tasks sharing one monitor, the work arriving at the top equals the sum of the work done scaled by the shares given to the sub-tasks, so a sub-task that completes contributes exactly its share. A cancellation requested on any level is seen on every level, and stays. Work of a task whose total is unknown or zero is accepted and counts for nothing.',
  ['histories','schedules'],'every tree and order of child tasks, every amount of work, every moment of cancellation',
  'the tests check one parent with two children and fixed numbers.',
  ['dedop/util/monitor.py'],[('child monitor','ChildMonitor')])
p('U03','The user configuration is read whole or not at all',
  'Every caller in every thread, from the first call on, sees the complete user configuration, with local settings overriding user-wide ones. A failure or crash while the default configuration file is being created never leaves a truncated file that is used later, and never stops the program.',
  ['schedules','crash_points','fault_sequences'],'every interleaving of first calls, every failing call and crash point while creating or reading the files, every pair of files',
  'the test reads one file in one thread.',
  ['dedop/util/config.py'],[('loading','get_config'),('creation','write_default_config_file')])
p('C01','A batch run processes each input with each configuration once',
  'The run command processes every selected input exactly once with every selected configuration, using that configuration\'s own files and writing only into that configuration\'s output folder (or the folder asked for), with the same products as separate single runs. If any of them fails, the command reports failure. The web service\'s process call likewise uses the files of the configuration it names and writes only into the folder it is given.',
  ['histories','fault_sequences','configurations'],'every set of inputs and configurations, every option combination, every failing or cancelled member of the batch',
  'the command-line tests use a dummy processor, one input at a time, and cannot run here.',
  ['dedop/cli/main.py','dedop/proc/sar/processor.py','dedop/webapi/websocket.py'],[('batch','RunProcessorCommand.execute'),('service','WebSocketService.process')])
p('C02','Commands and web service calls do what they report',
  'A command or web service call that reports success has had exactly the effect it names, with names left out taken from the current selection, and lists or returns exactly what is stored, in a form that can be sent as JSON. One that is refused or declined changes nothing. Whatever call fails inside it, success is never reported for work that was not done, and what is left is a prefix of its steps.',
  ['histories','fault_sequences','inputs'],'every history of commands, service calls and restarts, every combination of given and omitted names, every failing call',
  'the command-line tests cannot run here and the service tests call each method once without failures.',
  ['dedop/cli/main.py','dedop/webapi/websocket.py','dedop/ui/workspace_manager.py'],[('commands','ManageWorkspacesCommand, ManageConfigsCommand, ManageInputsCommand, ManageOutputsCommand'),('service','WebSocketService')])
# not applicable ones
N='pure function of its arguments'
p('N01','Geodetic and Cartesian coordinates convert back and forth',
  'Converting a position from geodetic to Cartesian coordinates and back gives the same position for every latitude, longitude and altitude of interest.',
  ['inputs'],'every position','the tests do not cover the conversions.',['dedop/proc/geo'],[('conversion','lla2ecef, ecef2lla')])
p('N02','The delay-Doppler algorithms compute the documented formulas',
  'Azimuth processing, geometry corrections, range compression, masking, multi-looking and sigma-zero scaling compute the formulas of the algorithm document for every burst and stack.',
  ['inputs'],'every burst, stack and setting','the tests compare a handful of precomputed cases.',['dedop/proc/sar/algorithms'],[('algorithms','one class per step')])
p('N03','Auxiliary parameters are type checked and version checked',
  'A characterisation, constants or configuration file with a missing, mistyped or unknown parameter or an incompatible version is refused with the matching error.',
  ['inputs'],'every file content','the tests load one good file of each kind.',['dedop/conf'],[('parameters','AuxiliaryParameter')])
p('N04','Inspection and comparison show the numbers of the product',
  'The inspection and comparison views plot and print exactly the values stored in the products.',
  ['inputs'],'every product','the view tests need libraries that are not installed.',['dedop/ui/inspect.py','dedop/ui/compare.py'],[('views','L1bInspector, L1bComparator')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
import subprocess
