# sections.sh MODULE OBJECT: collects the initializers of a module, and all the globals of the plugin
args="--rename-section .init_array=v1init_$1"
if [ "$1" = plug ]; then
    for s in $(objdump -h "$2" | awk '$2 ~ /^\.(data|bss)(\.|$)/ && $2 !~ /^\.data\.(rel\.ro|DW\.ref)/ {print $2}'); do
        args="$args --rename-section $s=plugdata,alloc,load,data,contents"
    done
fi
exec objcopy $args "$2"
