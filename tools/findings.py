"""Writes the "fixed" part of known_findings.json from the table below.

The entries only record what was repaired in /repo. They suppress nothing.
"""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")

FIXED = """
C02 93a26fa an object stored by reduce that refers to itself in its state or items decoded with a placeholder or failed
C12 baa0e5d replacing an object by fail_safe shifted the numbers of all later references
C28 5b35d77 an object stored as null (lambda, method) shifted the numbers of all later references
C03 f7a4e49 a dict subclass whose attributes equal its items lost the attributes
C08 be43a18 flattened forms were cached by the id of temporary objects, so another object could get them (also C07)
C05 4e36714 dictionary keys py/b64 and py/b85 were not reserved and turned the dictionary into bytes
C02 50cf189 a cycle through a dictionary decoded with keys=True left a placeholder in it
C05 e78402f escaped string keys were numbered in another order on decode than on encode
C06 45b288a a default factory was numbered after the items, so references in the items went astray
C03 3e143ea attributes and items named default_factory were lost, and restoring changed the flattened data (also C11)
C06 5bd5c70 compiled patterns over bytes could not be encoded
C20 2044e94 a handler registered as an instance shared its context between concurrent calls
C10 22a299d encoding with handle_readonly overwrote attributes of the encoded object
C03 9128d34 inherited slots of an object that also has an attribute dictionary were lost
C06 4465c5c the fold attribute of datetimes and times was lost
C03 ecf8e36 attributes of tuple subclasses were lost
C03 87c866f contents of deque subclasses were lost
C03 521d772 private slots of base classes were lost
C04 ee5407f a reduced object whose state is a pair of dictionary and slots did not decode
C03 af0bf90 class attributes of slotted instances were stored as if they were instance attributes
C03 785efcb attributes named like __orig_class__ came back under a mangled name
C05 f2fe324 dictionary items named __dict__ were lost with keys=True
C07 6e6192b a cycle of lists or dictionaries did not end with unpicklable=False
C07 4843d56 dict subclass items named default_factory got a wire tag with unpicklable=False
C10 a820276 handle_readonly added class attributes to instances
C27 6fb7ee8 include_properties shifted the numbers of later references (also C10)
C12 c25034e a list or dictionary returned by fail_safe shifted the numbers of later references
C13 554e547 an AttributeError raised by an object in a slot was swallowed together with that slot
C16 774add7 references next to objects of missing classes went astray
C18 9a52a5f loading a backend again listed it twice, so it survived its removal
C19 aeefc65 the yaml backend sorted keys, which moved references before their targets
C19 2322793 the datetime handler wrote a tuple, which yaml writes with a tag of its own
C20 eb51847 handler lookup failed while another thread registered a handler
C21 e3fb9db unregistering the numpy handlers left the one for datetime64
C21 0a1ae5c zero-dimensional arrays lost their shape
C21 07bd0c1 Fortran-ordered arrays that have views came back with permuted values
C21 36bc54c views of datetime arrays did not decode
C21 99a8231 dtypes with sub-arrays did not decode
C21 fdd6c39 structured arrays lost the byte order of their fields, which garbled the values
C21 4a9c11e small arrays and views lost their byte order
C21 3f2be92 object arrays that hold sequences lost their shape
C22 07ff54c dtype codes of frames depended on the hash seed of the process
C22 b0aa658 the name of an index was lost
C22 e7943be extension dtypes of frame columns were lost
C22 4246438 the time zone of series and timestamps was lost
C23 aa13c25 excluded attributes of list and set subclasses were written
C23 9d01ad2 excluded names were written by include_properties
C23 87ac759 private names in the exclude list had no effect
C24 d80110d a handler that returns a string shifted the numbers of later references
C25 ad6b421 a reused Pickler kept the last root object alive
C27 93977dc dictionary entries named like a method were lost with handle_readonly (also C26)
C26 dbee101 colliding keys shifted the numbers of later references
C27 77fcdbe references went astray when the backend sorts keys
C27 e110f2e the attributes of a dict subclass were restored too early in sorted output
C27 b7ba591 slots next to other attributes were restored in another order in sorted output
C28 747e616 an object that cannot be created shifted the numbers of later references
C02 f6c5db6 references to an unfinished object inside of subclasses of containers left a placeholder
C29 dd2d213 the type of None did not decode under its Python 2 name
C28 d99efa2 a module whose name means something else in its package decoded to that
C15 ad2d84f a reference tag with a negative number or a boolean gave some object of the document instead of None
C36 2d39fcf entries of nested dictionaries and objects were left out when named like a read-only attribute of the encoded object
C37 fe27010 the state of an object derived from tuple was not restored
C37 a334dfb encoding an object derived from dict called its comparison
C37 e4ff51d an object that has an attribute of any name could not be encoded
C36 f8ee340 handle_readonly had no effect together with keys=True
"""


def main():
    with open(PATH) as f:
        data = json.load(f)
    data["fixed"] = []
    for line in FIXED.strip().splitlines():
        prop, commit, what = line.split(" ", 2)
        data["fixed"].append("fixed: property=%s %s %s" % (prop, commit, what))
    with open(PATH, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


main()
