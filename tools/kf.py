import json
F='''C01 2100e65 the bracket printed for a container was read from a dead temporary string
C01 f9c7a18 strings of the redirected output were neither quoted right nor escaped, so the output was not JSON
C01 2116add an escaped backslash before a letter came out as an escape
C01 bed08f6 \\u escapes of surrogates and control characters came out as other text
C05 b9f1068 the column of an error on the first line was an uninitialised number
C05 4642918 the text leading to an error was read out of bounds
C05 60017cb CRLF was counted as two lines
C26 9fe921b parameters used without being initialised
C04 24f1c30 the end of the input appeared as a character in the diagnostic
C01 45d94d6 the character after a number or literal was read twice
C01 9794d9b numbers with an exponent or outside of the 64-bit range came out as other numbers; tokens without digit were taken for numbers
C01 dae3815 decimal numbers lost precision
C05 4af4600 crash on an object entry without value
C05 0be2259 entries after a missing separator silently dropped
C05 15fd41d out of bounds read while building the diagnostic
C05 a37b302 crash on an error found after an empty line
C04 bb8bae1 read errors after a complete number ignored
C14 84a5552 buffer overflow while measuring a text
C19 9a195fd signals handled inside of signal handlers, or ignored until the next key
C25 b2e5007 diff viewer: signals ignored until next key, uninitialised fields
C19 66b87eb signals and errors lost while loading an input
C28 1867f40 crash or endless loop when the terminal is not usable
C12 de8a44f a command that cannot be run left a second copy of the program going on
C12 1615073 endless loop when the command is killed
C11 7c36d46 temporary files shared between inputs or instances; endless loop if none can be created
C12 f0cf23a command run on files which could not be written
C12 4ba1b00 a failed fork was silent
C08 967b088 write errors on the standard output were silent
C17 aaaedd1 buffer overflow in the search prompt
C17 2dc599d unicode escapes in search patterns read out of bounds
C17 30bbf3d uninitialised type of the searched elements
C17 ce2a861 crash on an invalid regular expression
C17 8fa2875 memory leak on empty pattern
C15 5ef1df9 next item lost for an entry whose content is below the screen
C17 eaaea6c selection left out of the screen when the search goes back to the top
C04 7b83af2 read errors of the standard input ignored after a complete number
C03 46c3fbe values of several inputs joined together by --compress
C14 bc7f411 blank lines after keys ending near the right border
C15 619042e selection stuck on items which do not fit in the screen, next sibling not found from values nested in object entries
C14 bf7025a text written at a wrong place when the indentation exceeds the width of the screen
C20 40bc602 size of the terminal not updated when it changed while the program was stopped
C25 5cd5348 division by zero while comparing empty objects or arrays
C25 5381a68 distances of large objects or arrays overflowed a byte: wrong alignments, out of bounds accesses
C26 59ff4c7 uninitialised fields copied in the diff viewer
C23 b4501fd differences between similar values, or between values of different types, not shown
C23 06dd5ac objects and arrays taken as equivalent
C24 3adb661 search results of all the windows selected in the active one
C24 5ec9ee4 parents of a search result unfolded in one window only
C24 127a831 next item lost for an entry whose content is below the window
C24 de574c1 diff markers written at a wrong place once scrolled
C24 5abe7ee items written below the window after a gap
C24 ce445fd text written at a wrong place when the indentation exceeds the width of the window
C25 6af50d8 endless loops on terminals too small for the windows
C24 369c60f stale characters in the last columns after a change of size
C24 ae03895 rows of the two documents shifted after an empty container replaced by a value
C24 d3bc9ff end of a long message not cleared
C27 18f91ce stack overflow on deeply nested inputs
C17 70159af classes like \\D inverted by case insensitive regular expressions'''
import subprocess
fx=[]
for l in F.split('\n'):
    p,c,w=l.split(' ',2)
    full=subprocess.run(['git','-C','/repo','rev-parse',c],capture_output=True,text=True).stdout.strip()
    fx.append('fixed: property=%s %s %s'%(p,full[:10],w))
p='/verif/known-findings.json'
try: d=json.load(open(p))
except FileNotFoundError: d={'findings':[]}
d['fixed']=fx
json.dump(d,open(p,'w'),indent=1)
sys_path=__import__('sys').path; sys_path.insert(0,'/verif/lib')
from engine import blank, proc
from viewprops import key
def regex(text, pat):
    s=blank(nosnaps=0); s['procs']=[proc(['a.json'],('tty','',0),'tty')]; s['files']=[['/w/a.json','f','["%s"]'%text]]
    s['acts']=[key('/'+pat+'/e\n'),key('\x03')]; s['meta']={'how':'view'}
    return s
d['findings']=[
 dict(property='C27',**{'class':'crash-crash'},what='searching a regular expression (.*x/e) in a string of 200000 characters overflows the stack: std::regex of libstdc++ recurses for every character',scenario=regex('a'*200000,'.*x')),
 dict(property='C27',**{'class':'crash-hang'},what='a regular expression which needs exponential time ((a*)*b/e on 40 times a) is evaluated to the end before ^C or a signal is considered',scenario=regex('a'*40,'(a*)*b'))]
json.dump(d,open(p,'w'),indent=1)
