#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program only so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
TP, TB, D, M, MM, T = ('src/tagged_pointer.rs', 'src/tagged_box.rs', 'src/discriminant.rs',
                       'src/tagged_box_macro/mod.rs', 'src/tagged_box_macro/meta_macros.rs', 'src/taggable.rs')

prop('C01', 'A tagged pointer keeps its pointer and its tag apart',
 'For every pointer value and every discriminant within the documented maxima, a tagged pointer built from them gives back exactly that pointer through every accessor (integer, const and mutable raw pointer, references) and exactly that discriminant, and its raw word is the discriminant placed above the pointer bits. For every 64-bit word, fetching the discriminant and stripping it split the word without loss: storing the two halves again yields the same word.',
 ['inputs', 'configurations'], 'every pointer in [0, MAX_POINTER_VALUE] x every discriminant in [0, MAX_DISCRIMINANT] x every 64-bit word, for each of the 16 reserved widths, with and without debug assertions',
 'Unit tests try six (pointer, discriminant) pairs at the default 60-bit width only; 2^64 words x 16 widths cannot be sampled.',
 [TP, D], [('store_discriminant / fetch_discriminant / strip_discriminant', TP), ('DISCRIMINANT_MASK, POINTER_WIDTH', D)],
 [('tagged_ptr', 'the packed 64-bit word', TP + ' TaggedPointer')],
 ['TaggedPointer::{new,discriminant,as_u64,as_raw_u64,as_ptr,as_mut_ptr,as_ref,as_mut_ref,store_discriminant,fetch_discriminant,strip_discriminant}'])

prop('C02', 'Out-of-range pointers and tags are refused, never truncated',
 'Every checked way of forming a tagged pointer or a box (TaggedPointer::new and dangling; TaggedBox::new, dangling and from_raw; values of any size, including zero-sized ones) panics when the discriminant exceeds MAX_DISCRIMINANT or the pointer exceeds MAX_POINTER_VALUE, in every build profile. No such call ever returns a word whose pointer or discriminant differs from what was passed in, and in-range arguments never panic.',
 ['inputs', 'configurations'], 'every u64 pointer x every value of the Discriminant type x 16 widths x debug assertions on/off; every heap address the allocator may return',
 'One should_panic test tries one discriminant in a debug build; release builds, dangling/ZST paths and oversized pointers are not exercised.',
 [TP, TB], [('range assertions in TaggedPointer::new and dangling', TP), ('ZST branch of TaggedBox::new', TB)],
 [], ['TaggedPointer::new', 'TaggedPointer::dangling', 'TaggedBox::{new,dangling,from_raw}'])

prop('C03', 'Every reserved-width setting gives a consistent configuration',
 'For each documented setting of TAGGED_BOX_RESERVED_WIDTH from 48bits to 63bits, the published constants describe exactly that split of a 64-bit word: N pointer bits, 64-N discriminant bits, maximum pointer and mask 2^N-1, maximum discriminant 2^(64-N)-1, and a Discriminant type able to hold it. Unset or unrecognised settings behave as 60bits, and tagged pointers, boxes and the tagged_box! macro compile and round-trip values at every width.',
 ['configurations', 'inputs'], 'the 16 documented settings plus unset/unknown; for each, every word and every in-range value',
 'The test suite is built at one width only (60bits); the other 15 configurations are never compiled by it.',
 [D, 'build.rs', M], [('generate_discriminants! table', D), ('TAGGED_BOX_RESERVED_WIDTH match', 'build.rs'), ('discriminant casts of the macro', M)],
 [], ['tagged_box::discriminant::*'])

prop('C04', 'Equality, order and hash of tagged pointers agree with pointer and tag',
 'Two tagged pointers are equal exactly when both their pointers and their discriminants are equal. Their ordering is a total order consistent with that equality and equal to the order of (discriminant, pointer) pairs, all comparison operators agree with it, equal ones hash alike, unequal ones feed a hasher different data, and copies and clones are identical to the original.',
 ['inputs', 'configurations'], 'every pair and triple of in-range (pointer, discriminant) pairs; each width',
 'No test compares or hashes TaggedPointers at all.',
 [TP], [('derived PartialEq/Eq/PartialOrd/Ord/Hash/Copy/Clone over the packed word', TP)],
 [], ['==, <, cmp, Hash of TaggedPointer'])

prop('C05', 'A box gives back exactly the value and tag put into it',
 'For every sized type, value and valid discriminant, a TaggedBox reports that discriminant, shows that value through as_ref, as_mut_ref, as_ptr and as_mut_ptr, and yields it bit for bit from into_inner, into_raw and into_box; values of size zero, of one byte, larger than a page and over-aligned types behave alike. Writing through a mutable access is what later reads see, and neither reading nor writing changes the discriminant.',
 ['inputs', 'configurations', 'programs'], 'every value of the instantiated types (integers, arrays, structs, over-aligned, zero-sized, heap-owning) x every valid discriminant x every heap address; each width',
 'Tests store a handful of constants with a handful of tags.',
 [TB, TP], [('TaggedBox::new / new_unchecked allocate and write', TB), ('as_ref/as_mut_ref/as_ptr/as_mut_ptr/into_inner/into_box strip the tag', TB)],
 [('boxed', 'the tagged pointer to the heap block', TB)], ['TaggedBox API'])

prop('C06', 'Each box owns its own aligned, non-null, writable storage',
 'The pointer a box exposes is non-null, free of tag bits and aligned for the stored type, zero-sized and over-aligned types included, and the whole value lies inside memory obtained for that box. Storage of simultaneously live boxes never overlaps, so writing through one box changes neither another box nor the other\'s discriminant, whatever the addresses the allocator picks.',
 ['inputs', 'histories'], 'every discriminant, every value, every allocator address choice; pairs of live boxes of equal and different types',
 'Tests never check alignment, overlap or bounds, and the test allocator returns only low, benign addresses.',
 [TB, TP], [('Layout::new::<U> allocation', TB), ('align_of-based dangling pointer', TP)],
 [], ['as_ptr / as_mut_ptr / into_raw results'])

prop('C07', 'Raw and Box hand-over preserve ownership of the one block',
 'into_raw followed by from_raw with the same discriminant yields a box identical to the original, and the raw pointer addresses the original value. into_box yields a standard Box owning exactly the block the value was stored in: dropping it drops the value once and returns that block to the allocator with the size and alignment it was requested with. No hand-over frees, copies or moves the block.',
 ['inputs', 'histories'], 'every value and discriminant of the instantiated types, zero-sized and over-aligned included; repeated hand-over up to the stated depth',
 'Doc-tests call each function once on one value; none observes the allocator.',
 [TB], [('into_raw / from_raw / into_box', TB), ('ManuallyDrop in into_raw', TB)],
 [], ['TaggedBox::{into_raw,from_raw,into_box}, allocator calls'])

prop('C08', 'A boxed value is destroyed exactly once, by its final owner',
 'Moving a value into a box, reading, comparing, formatting, cloning or handing the box over never runs the destructor of the boxed value, and dropping the value finally extracted runs it exactly once. This holds for zero-sized values, for values with several destructible parts, and for every extraction route.',
 ['inputs', 'histories'], 'every variant shape and payload with a destructor, every sequence (box, borrow*, extract, drop) up to the stated length',
 'No test uses a type with an observable destructor.',
 [TB, M], [('mem::forget / ptr.write in new', TB), ('ManuallyDrop in into_inner', TB), ('ManuallyDrop around borrowed variants', M)],
 [], ['Drop of payload types'])

prop('C09', 'tagged_box! enums survive boxing unchanged, whatever their shape',
 'For every enum declared with tagged_box! and every value of it, putting the value into its container or into a tagged box and taking it out again yields the same variant with the same field values, through each route: container into_inner, from_tagged_box, and the borrowed view. Unit, empty-tuple, one-element, multi-element (up to 32 fields of any types in any order) and struct-like variants, with or without a trailing comma, all behave alike.',
 ['inputs', 'programs', 'configurations'], 'every value of every field, for the instantiated enum declarations: every tuple arity 0..32, mixed-layout field orders, every variant syntax, first/middle/last position',
 'Tests use tuples of 1 and 4 fields and a struct of 2, with constants; 30 arities of hand-expanded macro arms are never instantiated.',
 [M, MM], [('__taggable_into_box / __expand_tuple_arm', MM), ('__boxed_into_inner, __from_tagged_box, __ref_from_tagged', M), ('__expand_tuple', MM)],
 [], ['TaggableContainer::into_inner', 'TaggableInner::{into_tagged_box,from_tagged_box,ref_from_tagged_box}'])

prop('C10', 'Each variant has its own tag, the same on every route',
 'The discriminant of a box made from an enum value is the zero-based position of its variant in the declaration, independent of the field values, so values of different variants always have different discriminants. Every route that builds a box or a container (into_tagged_box, From the enum, From the payload, clone, raw round trip) gives the same discriminant for the same variant, and reading back selects the variant by that discriminant alone.',
 ['inputs', 'programs', 'configurations'], 'every value of the instantiated enums, incl. an enum using every tag of the width\'s range',
 'Tests never look at the discriminant of a macro-made box and use at most ten variants.',
 [M], [('__counter_enum', M), ('discriminant guards in the reader macros', M)],
 [], ['TaggedBox::discriminant of container values'])

prop('C11', 'A tag that names no variant is rejected, never misread',
 'Reading a box whose discriminant is not that of any declared variant panics in every reader: container into_inner, from_tagged_box and the borrowed view (and so in clone, comparison and formatting). The callback of the borrowed view is not run and no value of the enum is produced.',
 ['inputs', 'configurations'], 'every discriminant from the variant count up to MAX_DISCRIMINANT, for the instantiated enums and each width',
 'No test reads a box with a foreign discriminant.',
 [M], [('catch-all panic arms of the reader macros', M)], [], ['panic of into_inner/from_tagged_box/ref_from_tagged_box'])

prop('C12', 'Containers built from payloads hold the right variant',
 'For every payload value, converting it to a container gives the variant that declares that payload type, with the fields in declaration order: From a single field type, From a tuple of the field types, From the unit tuple for an empty-tuple variant, and From the enum itself. The result is indistinguishable from boxing that variant directly.',
 ['inputs', 'programs'], 'every payload value for the instantiated enums, all tuple arities 0..32 and mixed types',
 'Tests convert a usize and one 4-tuple.',
 [M, MM], [('__derive_from', M), ('__expand_tuple', MM)], [], ['From impls of the container'])

prop('C13', 'Comparing boxes is comparing the values inside',
 'For boxes and containers whose enum is comparable, ==, !=, <, <=, >, >=, partial_cmp and cmp give exactly the result of comparing the enum values, whatever variants and addresses are involved, including partially ordered values such as NaN and user-defined comparisons. Comparison changes neither operand.',
 ['inputs', 'programs'], 'every pair of values of the instantiated enums (derived and hand-written comparisons)',
 'Tests compare enum values, never boxes or containers.',
 [TB], [('PartialEq/PartialOrd/Ord via nested ref_from_tagged_box', TB)], [], ['operators on TaggedBox and containers'])

prop('C14', 'A clone is equal, independent and owns its own storage',
 'Cloning a box or container gives one with the same discriminant and an equal value in storage of its own. Mutating, consuming or dropping either one never affects the other, the original is left untouched, and the payload is cloned exactly once and destroyed exactly once per copy.',
 ['inputs', 'histories'], 'every value of the instantiated enums, heap-owning payloads included; both orders of mutating/consuming original and clone',
 'One test clones one usize and one String.',
 [TB], [('Clone via ref_from_tagged_box and into_tagged_box', TB)], [], ['Clone of TaggedBox and containers'])

prop('C15', 'Formatting a box formats the value inside, with the same options',
 'Debug and Display of a tagged box produce exactly what the enum value inside produces under the same formatter options (alternate form, sign, zero padding, fill, alignment, width, precision), and pass on an error from the value or from the output. Formatting leaves the box unchanged.',
 ['inputs', 'fault_sequences'], 'every combination of formatter options and every value of the instantiated enums; writers failing at any point',
 'No test formats a box.',
 [TB], [('Debug/Display via ref_from_tagged_box', TB)], [], ['fmt::Debug / fmt::Display of TaggedBox'])

prop('C16', 'Address formatting shows the bare address, never the tag',
 'Hexadecimal (both cases), octal and binary formatting of a tagged pointer or box print exactly what the tag-free address prints under the same options, and pointer formatting of a tagged pointer prints the tag-free pointer. Debug of a tagged pointer reports the raw word, the tag-free pointer and the discriminant.',
 ['inputs', 'configurations'], 'every in-range pointer and discriminant x formatter options',
 'No test formats a TaggedPointer or a box\'s address.',
 [TP, TB, 'src/lib.rs'], [('impl_fmt! macro', 'src/lib.rs'), ('fmt::Debug and fmt::Pointer of TaggedPointer', TP)], [], ['LowerHex/UpperHex/Octal/Binary/Pointer/Debug'])

prop('C17', 'Borrowing a boxed value runs the callback once and takes nothing',
 'The borrowed view calls its closure exactly once, with a reference to a value equal to the boxed one, also when views are nested or taken on the same box at the same time. Afterwards the box holds the same word and value, nothing was dropped, allocated or freed, and the value can still be extracted.',
 ['inputs', 'histories', 'programs'], 'every value of the instantiated enums, each variant shape; nesting depth 2, repeated views',
 'Tests run the view on constants without destructors and do not count callback runs.',
 [M], [('__ref_from_tagged', M)], [], ['TaggableInner::ref_from_tagged_box'])

prop('C18', 'A panic in user code never drops or duplicates the boxed value',
 'If the callback of a borrowed view, or the payload\'s own clone, comparison or formatting code, panics while a box is being used, unwinding leaves the box exactly as it was: the value is not dropped, not duplicated, and can still be read and extracted, after which it is dropped once. A refused construction (bad discriminant) never drops the value more than once.',
 ['fault_sequences', 'inputs'], 'a panic at any of the user-code call points, for every value and variant shape of the instantiated enums',
 'No test panics inside a callback.',
 [TB, M], [('ManuallyDrop around the borrowed variant', M), ('ManuallyDrop in into_inner', TB)], [], ['state after catch_unwind'])

prop('C19', 'A failed allocation never becomes a box',
 'If the allocator cannot provide memory, creating a box (directly, through the macro, by conversion or by clone) does not return: no box with a null or dangling pointer for a sized value is ever produced and nothing is written through the null pointer. Values that need no memory (zero-sized payloads and unit variants) are boxed without asking the allocator and so cannot fail.',
 ['fault_sequences', 'inputs'], 'allocator failure at any allocation of the operation',
 'Allocation failure is never injected by the tests.',
 [TB], [('null check after alloc', TB), ('ZST branch of new', TB)], [], ['TaggedBox::new under a failing allocator'])

prop('C20', 'Boxes and containers are exactly one 64-bit word',
 'A tagged pointer, a tagged box of any type and any tagged_box! container have the size and alignment of one u64 however large the enum, and that word is the packed pointer-and-discriminant of the stored value. The tag never lengthens the value\'s storage: a sized value costs one heap block of exactly its own (C-layout) size and alignment, a zero-sized value or unit variant costs none.',
 ['programs', 'inputs'], 'the instantiated types and enums, every value and discriminant',
 'No test checks sizes, representation or allocations.',
 [TP, TB, M], [('repr(transparent) on TaggedPointer, TaggedBox and the container', TB)], [], ['size_of/align_of/transmute, allocator calls'])

prop('C21', 'Copies of a Copy box stay valid independently of each other',
 'When the enum is Copy, copying a box or container gives another handle to the same value: every copy reads, compares and extracts to the same value, in any order and any number of times, and no operation on one copy invalidates the memory another copy still refers to.',
 ['inputs', 'histories'], 'every value of the instantiated Copy enums; all interleavings of up to three copies being read and consumed',
 'Tests copy containers only incidentally and never consume two copies.',
 [TB], [('impl Copy for TaggedBox', TB), ('into_inner does not free', TB)], [], ['copies of TaggedBox / containers'])

prop('C22', 'The heap block of a box goes back to the allocator once, when it is done',
 'Every heap block a box obtains is returned to the allocator exactly once, with the layout it was requested with, once the value has been extracted or the owning box is gone. No block is ever returned twice, returned with another layout, or returned while a box still refers to it.',
 ['histories', 'inputs'], 'every extraction or drop route x every value of the instantiated types',
 'No test observes the allocator.',
 [TB, M], [('into_box', TB), ('into_inner (reads without freeing)', TB)], [], ['alloc/dealloc calls'])

prop('C23', 'Any sequence of box operations behaves like the plain values',
 'Over any sequence of operations on a small set of boxes (create, read, mutate, borrow, compare, clone, raw round trip, extract and re-box), every observation equals the one made on plain enum values, discriminants always match the variants, and no operation on one box disturbs another.',
 ['histories', 'inputs'], 'every sequence of operations up to the stated length on two boxes, operations and values chosen symbolically',
 'Tests run fixed two- or three-step scripts.',
 [TB, TP, M], [('all of the TaggedBox API over the packed word', TB)], [], ['TaggedBox API against a plain-enum model'])

prop('C24', 'Variants with more than 32 fields are refused at compile time',
 'A tagged_box! declaration with a tuple variant of more than 32 fields, or one that is not a valid enum body, is rejected by the compiler instead of producing code that loses fields.',
 ['programs'], 'every macro input',
 'One compile_fail doc-test covers an unrelated mistake.',
 [MM, M], [('compile_error! arms', MM)], [], ['compiler diagnostics'])

prop('C25', 'Thread-safety markers follow the enum type',
 'A tagged box or container can be sent to or shared with another thread exactly when the enum it is declared for can.',
 ['programs'], 'every enum type', 'Auto traits are never asserted by the tests.',
 [TB], [('PhantomData<T> in TaggedBox', TB)], [], ['Send / Sync bounds'])

prop('C26', 'Boxes may hold boxes, at any depth',
 'A payload may itself hold tagged boxes or containers, of another enum or of the same one (lists, trees). Every level round-trips with its own tag and value; views taken inside views show each level; comparison follows the structure; a clone copies every level into storage of its own, each leaf exactly once; and extracting one level leaves the boxes inside it whole.',
 ['histories', 'inputs'], 'every value of nested enums, lists and trees up to the stated sizes, through each route',
 'No test stores a box in a box.',
 [TB, M], [('Clone/PartialEq/PartialOrd for TaggedBox (run the inner impls)', TB), ('__ref_from_tagged (bitwise copy of the payload)', M), ('tagged_box! container', M)],
 [], ['into_tagged_box / from_tagged_box / ref_from_tagged_box / clone / comparison of enums that hold boxes'])

prop('C27', 'Hand-written implementations get the same guarantees',
 'For every implementation of TaggableInner written by hand along the guide, with any distinct valid tags and any stored form of the payload, the box keeps the tag it is given, and clone, comparison and formatting of the box are those of the enum, reached only through the implementation: one view per operand, one boxing per clone, never the stored bytes or the tag itself. A value that the implementation does not show is never cloned.',
 ['programs', 'inputs'], 'every assignment of distinct valid tags and every value of hand-written enums that store their payload in another form',
 'Tests and documentation implement the trait by hand only to construct single values.',
 [TB, 'src/manually_impl_enum.rs', 'src/taggable.rs'], [('impls of TaggedBox<T: TaggableInner>', TB), ('trait TaggableInner', 'src/taggable.rs')],
 [], ['TaggedBox<T> for a T that implements TaggableInner itself'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
if __name__ == '__main__':
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in P: jsonschema.validate(p, s)
    except ImportError: pass
    print(len(P), 'properties')
