def spec(id, edits, demo, needs, breaks):
    return {'id': id, 'prop': 'C06', 'edits': [('libgst/interp.c', a, b) for a, b in edits], 'demo': demo, 'needs': needs, 'breaks': breaks}


WAITERS = '''| s log p |
s := Semaphore new.
log := WriteStream on: String new.
p := #(#a #b #c #d) collect: [:n | [s wait. log nextPutAll: n; space] newProcess priority: 3; yourself].
'''
SEEDS = [
spec('c06-remove-last', [('''          lastProcess->nextLink = process->nextLink;
	  if (sem->lastLink == processOOP)
            sem->lastLink = lastProcessOOP;
''', '''          lastProcess->nextLink = process->nextLink;
	  if (sem->firstLink == lastProcessOOP && sem->lastLink == processOOP)
            sem->lastLink = lastProcessOOP;
''')], WAITERS + '''1 to: 3 do: [:i | (p at: i) resume. Processor yield].
(Delay forMilliseconds: 20) wait.
(p at: 3) suspend.
(p at: 4) resume.
(Delay forMilliseconds: 20) wait.
s size printNl.
4 timesRepeat: [s signal].
(Delay forMilliseconds: 20) wait.
log contents printNl.
(s instVarNamed: 'signals') printNl.
''', 'three processes waiting on a semaphore, of which the last is suspended; then another one waits', 'The process that waits next is linked after one that is no longer in the queue, so that no signal reaches it.'),
spec('c06-signal-once', [('''      /* If they terminated this process, well, try another */
    }
  while (!resume_process (processOOP, false));
''', '''      /* If they terminated this process, we are done */
      if (!resume_process (processOOP, false))
	return true;
    }
  while (false);
''')], WAITERS + '''1 to: 3 do: [:i | (p at: i) resume. Processor yield].
(Delay forMilliseconds: 20) wait.
(p at: 1) instVarNamed: 'suspendedContext' put: nil.
2 timesRepeat: [s signal].
(Delay forMilliseconds: 20) wait.
log contents printNl.
s size printNl.
(s instVarNamed: 'signals') printNl.
''', 'a signal on a semaphore on whose queue the first process was terminated', 'The signal is swallowed by the terminated process instead of resuming the first live one.'),
spec('c06-resume-first', [('''  process = (gst_process) OOP_TO_OBJ (processOOP);
  remove_process_from_list (processOOP);

  sem = (gst_semaphore) OOP_TO_OBJ (semaphoreOOP);
  process->myList = semaphoreOOP;
  process->nextLink = sem->firstLink;

  sem->firstLink = processOOP;
''', '''  OOP firstOOP;

  process = (gst_process) OOP_TO_OBJ (processOOP);
  sem = (gst_semaphore) OOP_TO_OBJ (semaphoreOOP);
  firstOOP = sem->firstLink;
  remove_process_from_list (processOOP);

  process->myList = semaphoreOOP;
  process->nextLink = firstOOP;

  sem->firstLink = processOOP;
''')], '''| p q list n |
p := [] newProcess priority: 3; yourself.
q := [] newProcess priority: 3; yourself.
p resume. q resume. q resume.
list := (Processor instVarNamed: 'processLists') at: 3.
n := 0. q := list instVarNamed: 'firstLink'.
[q isNil or: [n > 10]] whileFalse: [n := n + 1. q := q instVarNamed: 'nextLink'].
n printNl.
Smalltalk at: #VDone put: 0.
''', 'resuming a process of lower priority that is ready already and first of its queue', 'The process becomes its own successor: the queue is endless and the processes behind it never run.'),
spec('c06-many-signals', [('''mst_Boolean isActive;

  sem = (gst_semaphore) OOP_TO_OBJ (semaphoreOOP);
''', '''mst_Boolean isActive;
  int pending;

  sem = (gst_semaphore) OOP_TO_OBJ (semaphoreOOP);
  pending = TO_INT (sem->signals);
'''), ('  if (TO_INT (sem->signals) <= 0)\n    {\n      /* Have to suspend.  Prepare', '  if (pending <= 0)\n    {\n      /* Have to suspend.  Prepare')], '''| s done p |
s := Semaphore new.
s instVarNamed: 'signals' put: 2147483648.
done := false.
p := [s wait. done := true] forkAt: 5.
(Delay forMilliseconds: 20) wait.
done printNl.
(s instVarNamed: 'signals') printNl.
''', 'waiting on a semaphore with 2^31 or more pending signals', 'The wait suspends its caller instead of consuming a signal.'),
spec('c06-yield-alone', [('''	      if (processList->firstLink == processList->lastLink)
		continue;
''', '''	      if (is_empty (processListOOP))
		continue;
''')], '''| p log |
log := WriteStream on: String new.
p := [log nextPutAll: 'low '] forkAt: Processor userBackgroundPriority.
log nextPutAll: 'main1 '. Processor yield. log nextPutAll: 'main2 '.
log contents printNl.
''', 'a yield when only processes of lower priority are ready', 'The running process chooses itself again.'),

spec('c06-wait-lifo', [("""      remove_process_from_list (processOOP);
      add_last_link (semaphoreOOP, processOOP);
      if (isActive""", """      remove_process_from_list (processOOP);
      if (sem->firstLink == sem->lastLink)
        add_last_link (semaphoreOOP, processOOP);
      else
        add_first_link (semaphoreOOP, processOOP);
      if (isActive""")], WAITERS + """1 to: 4 do: [:i | (p at: i) resume. Processor yield].
(Delay forMilliseconds: 20) wait.
4 timesRepeat: [s signal].
(Delay forMilliseconds: 20) wait.
log contents printNl.
""", 'three or more processes waiting on one semaphore', 'The third process that waits overtakes the first two.'),
spec('c06-resume-order', [("""         put it to sleep.  */
      add_first_link (processList, processOOP);""", """         put it to sleep.  */
      if (IS_NIL (process->nextLink) && process->myList == processList)
        return (true);
      add_first_link (processList, processOOP);""")], """| log p q r |
log := WriteStream on: String new.
p := #(#a #b #c) collect: [:n | [log nextPutAll: n; space] newProcess priority: 3; yourself].
p do: [:each | each resume].
(p at: 1) resume.
[(Delay forMilliseconds: 20) wait] value.
log contents printNl.
""", 'a process of lower priority that is ready, at the end of its queue, is resumed again', 'The process is not moved to the front of its queue.'),
]
